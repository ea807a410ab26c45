"""C12: concurrent calls on shared objects, interleaved at every statement; arguments and earlier results stay intact."""
import sys

import numpy as np

from ..abort import Abort
from ..catalog import REAL, changed, judge_result, make_world
from ..cluster import Cluster, LevelOrder, Patched
from ..core import scenario
from ..snap import diff, same, snap
from ..threads import Interleaver
from ..tfcatalog import REAL as TF_REAL, flat, tf_calls
from ..tfutil import Eager


def pick_calls(ch, w, lo, hi):
    return [w.calls[ch.int(len(w.calls))] for _ in range(ch.range(lo, hi))]


class Reference:
    """What each call returns when it is the only one, on a private copy of everything."""

    def __init__(self, ctx, w):
        self.ctx, self.w, self.memo = ctx, w, {}

    def __call__(self, call):
        if call[0] not in self.memo:
            self.memo[call[0]] = self.ctx.sut(call[0], self.w.alone, call)
        return self.memo[call[0]]


def threads_run(ctx, families, opcode=None, ncalls=2):
    ch = ctx.ch
    w = make_world(ctx, families)
    if w is None:
        return
    ref = Reference(ctx, w)
    before = w.snap()
    n = 2 + ch.weighted([(0, 5), (1, 2), (2, 1)])
    same_call = ch.chance(0.3)
    first = w.calls[ch.int(len(w.calls))]
    plan = []
    for t in range(n):
        plan.append([first] if same_call else pick_calls(ch, w, 1, ncalls))
    exp = [[ref(c) for c in calls] for calls in plan]
    il = Interleaver(ctx, opcode=ch.chance(0.25) if opcode is None else opcode)
    kills = {}
    if ch.chance(0.3):
        t = ch.int(n)
        kills[t] = 1 + ch.int(400)
    ctx.info.update({"family": w.family, "threads": n, "calls": [[c[0] for c in calls] for calls in plan]})
    ctx.step("plan", w.family, *["+".join(c[0] for c in calls) for calls in plan], "kill", sorted(kills.items()))

    def body(calls):
        out = []
        for c in calls:
            r = c[1](w)
            out.append((r, snap(r)))
        return out
    for calls in plan:
        il.add(lambda calls=calls: body(calls))
    il.kill = dict(kills)
    il.kill_exc = Abort("caller thread interrupted")
    res = il.run()
    for t, (calls, (ok, v)) in enumerate(zip(plan, res)):
        if t in kills and t not in il.kill:
            ctx.fault("caller_interrupted")
            ctx.check(not ok and v is il.kill_exc, "interrupt-swallowed", "interrupt of thread %d did not reach its caller: %r" % (t, v))
            continue
        ctx.check(ok, "exception:concurrent", lambda: "thread %d (%s) raised %r" % (t, [c[0] for c in calls], v))
        for c, (r, s), e in zip(calls, v, exp[t]):
            judge_result(ctx, "%s (thread %d of %d)" % (c[0], t, n), w, r, e, "concurrent-result")
            d = diff(s, snap(r), "result")
            ctx.check(d is None, "result-changed", lambda: "%s: result was changed later: %s" % (c[0], d))
    d = changed(before, w)
    ctx.check(d is None, "data-changed", lambda: "calls %s changed %s" % ([[c[0] for c in calls] for calls in plan], d))


@scenario("C12", "threads", quick=2400, thorough=60000, chunk=40, cpu_limit=120)
def threads(ctx):
    """Two to four callers on shared objects, control passed between statements (or bytecodes)."""
    ctx.real.update(REAL)
    threads_run(ctx, None)


@scenario("C12", "discrete", quick=1500, thorough=40000, chunk=40, cpu_limit=120)
def discrete(ctx):
    """The same with longer call sequences per thread for the discrete-time solvers."""
    ctx.real.update(REAL)
    threads_run(ctx, ("lqt", "fsc", "viterbi", "lqr"), ncalls=4)


@scenario("C12", "history", quick=2400, thorough=60000, chunk=40, cpu_limit=120)
def history(ctx):
    """One caller, long mixed histories; every argument and every earlier result is compared after every call."""
    ctx.real.update(REAL)
    ch = ctx.ch
    w = make_world(ctx, None)
    if w is None:
        return
    ref = Reference(ctx, w)
    before = w.snap()
    kept = []
    names = []
    if w.family in ("lqt", "lqr", "clqt", "clqr") and ch.chance(0.5):     # elsewhere rounding may decide ties
        seam = Patched(np_scan=Cluster(ctx).scan)
        ctx.stub.add("associative scan execution: simulated cluster")
    else:
        seam = LevelOrder(ctx)
    w.tol = 1e-6
    ctx.info.update({"family": w.family, "calls": names})
    for _ in range(2 + ch.int(8)):
        c = w.calls[ch.int(len(w.calls))]
        names.append(c[0])
        ctx.step("call", w.family, c[0])
        e = ref(c)
        with seam:
            r = ctx.sut(c[0], c[1], w)
        judge_result(ctx, c[0], w, r, e, "result-depends-on-history")
        d = changed(before, w)
        ctx.check(d is None, "data-changed", lambda: "%s changed %s" % (c[0], d))
        for (l, r0, s0) in kept:
            d = diff(s0, snap(r0), "result")
            ctx.check(d is None, "result-changed", lambda: "%s changed the earlier result of %s: %s" % (c[0], l, d))
        kept.append((c[0], r, snap(r)))


# ---------------------------------------------------------------------------------------------------

@scenario("C12", "grid", quick=160, thorough=6000, chunk=20, needs=("jax",), cpu_limit=120)
def grid(ctx):
    """The grid solvers (JAX), concurrent callers."""
    ctx.real.update(["parallel_control.hjb_grid_1d_np", "parallel_control.my_assoc_scan"])
    threads_run(ctx, ("hjb",))


@scenario("C12", "tensorflow", quick=160, thorough=6000, chunk=10, needs=("tf",), cpu_limit=120)
def tensorflow(ctx):
    """Concurrent eager calls of the TensorFlow functions on shared tensors."""
    ctx.real.update(TF_REAL)
    ch = ctx.ch

    with Eager():
        kind, calls = tf_calls(ctx)
        if calls is None:
            return
        n = 2 + ch.int(2)
        plan = [[calls[ch.int(len(calls))] for _ in range(1 + ch.int(2))] for _ in range(n)]
        exp = {c[0]: flat(ctx.sut(c[0], c[1])) for cs in plan for c in cs}
        ctx.step("plan", kind, *["+".join(c[0] for c in cs) for cs in plan])
        il = Interleaver(ctx)
        for cs in plan:
            il.add(lambda cs=cs: [flat(c[1]()) for c in cs])
        for t, (cs, (ok, v)) in enumerate(zip(plan, il.run())):
            ctx.check(ok, "exception:concurrent", lambda: "thread %d (%s) raised %r" % (t, [c[0] for c in cs], v))
            for c, r in zip(cs, v):
                ctx.check(same(r, exp[c[0]], 1e-7), "concurrent-result", lambda: "%s (thread %d) differs from the call made alone" % (c[0], t))
