"""C13: calls broken off at sampled statements, bytecodes or kernel calls; nothing shared may be left changed."""
import numpy as np

from ..abort import Abort, KernelFault, LineRunner
from ..catalog import REAL, changed, judge_result, make_world, mod
from ..core import scenario
from ..snap import diff, same, snap
from ..threads import Interleaver
from ..tfcatalog import REAL as TF_REAL, flat, tf_calls
from ..tfutil import Eager
from .c12 import Reference


def errors(ch):
    return ch.pick([lambda: Abort("interrupt"), lambda: MemoryError("injected"), lambda: KeyboardInterrupt("injected"),
                    lambda: np.linalg.LinAlgError("injected")])()


def chain(e):
    """The exception and everything it was raised from."""
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def where_to_stop(ch, n):
    """Somewhere in 1..n, often near the ends, where state is set up and written back."""
    return ch.weighted([(lambda: 1 + ch.int(n), 6), (lambda: n - ch.int(min(n, 8)), 2), (lambda: 1 + ch.int(min(n, 8)), 1)])()


def abort_call(ctx, label, fn, fallback_ok):
    """Runs fn with a failure in the middle; True when the failure happened."""
    ch = ctx.ch
    exc = errors(ch)
    how = ch.weighted([("line", 5), ("opcode", 2), ("kernel", 3)])
    if how == "kernel":
        with KernelFault() as k:
            ctx.sut(label, fn)
        if k.count == 0:
            return False
        exc = ch.pick([MemoryError("injected"), np.linalg.LinAlgError("injected")])
        with KernelFault(where_to_stop(ch, k.count), exc) as r:
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", e)
    else:
        r = LineRunner(opcodes=how == "opcode")
        out = r.run(fn)
        if out[0] == "exc":
            ctx.sut(label, fn)
            ctx.check(False, "exception:%s" % label, lambda: "%s raised %r" % (label, out[1]))
        if r.count == 0:
            return False
        r = LineRunner(where_to_stop(ch, r.count), exc, opcodes=how == "opcode")
        out = r.run(fn)
    if r.where is None:
        return False
    ctx.step("abort", label, type(exc).__name__, how, r.where)
    ctx.fault("aborted_%s_%s" % (how, type(exc).__name__))
    if out[0] == "ok":
        # recovering from a failed kernel is fine when the result is right; an interrupt must not be lost
        with ctx.judging(label):
            good = isinstance(exc, np.linalg.LinAlgError) and how == "kernel" and fallback_ok(out[1])
        ctx.check(good, "error-swallowed", lambda: "%s returned normally although %r was raised at %s" % (label, exc, r.where))
    else:
        ctx.check(exc in chain(out[1]), "error-replaced", lambda: "%s: %r raised at %s, but the caller got %r" % (label, exc, r.where, out[1]))
    return True


def recondense(ctx, w):
    """A shared condenser whose re-use is broken off is entirely as before, or entirely as after."""
    ch = ctx.ch
    cond = w.shared_condenser
    Nc = 1 + ch.int(len(w.lqt.F))
    fresh = mod("condensing_np").LQTCondenser()
    ctx.sut("condense", fresh.condense, w.lqt, w.Nc)
    ctx.sut("condense", fresh.condense, w.lqt, Nc)
    old, new = snap(vars(cond)), snap(vars(fresh))
    abort_call(ctx, "LQTCondenser.condense", lambda: w_condense(w, cond, Nc, old), lambda r: True)
    now = snap(vars(cond))
    ctx.check(now in (old, new), "data-changed", lambda: "aborted condense left the condenser in a mixed state: %s; %s" %
              (diff(old, now, "cond"), diff(new, now, "cond")))
    cl = ctx.sut("condense", cond.condense, w.lqt, Nc)
    g = ctx.sut("parBackwardPass", cl.parBackwardPass)
    t = ctx.sut("parForwardPass", cl.parForwardPass, w.x0, g[0], g[1])
    us, xs = ctx.sut("convertUX", cond.convertUX, *t)
    with ctx.judging("convertUX"):
        ctx.check(same(us, w.traj[0], 1e-5) and same(xs, w.traj[1], 1e-5), "repeat-result", "condensing again after an abort gives another solution")
    ctx.sut("condense", cond.condense, w.lqt, w.Nc)


def w_condense(w, cond, Nc, old):
    """Both the counting run and the aborted run start from the old state."""
    if snap(vars(cond)) != old:
        cond.condense(w.lqt, w.Nc)
    return cond.condense(w.lqt, Nc)


def abort_run(ctx, families):
    ch = ctx.ch
    w = make_world(ctx, families)
    if w is None:
        return
    ref = Reference(ctx, w)
    before = w.snap()
    done = []
    ctx.info.update({"family": w.family, "calls": done})
    ctx.step("world", w.family)
    for _ in range(1 + ch.int(4)):
        if hasattr(w, "shared_condenser") and ch.chance(0.15):
            done.append("condense")
            recondense(ctx, w)
            d = changed(before, w)
            ctx.check(d is None, "data-changed", lambda: "re-condensing changed %s" % d)
            continue
        c = w.calls[ch.int(len(w.calls))]
        done.append(c[0])
        e = ref(c)
        if not abort_call(ctx, c[0], lambda: c[1](w), lambda r: same(r, e, 1e-6)):
            continue
        d = changed(before, w)
        ctx.check(d is None, "data-changed", lambda: "aborted %s changed %s" % (c[0], d))
        if ch.chance(0.6):
            judge_result(ctx, c[0], w, ctx.sut(c[0], c[1], w), e, "repeat-result")
    for l in sorted(set(done) - {"condense"}):
        c = dict(w.calls)[l]
        judge_result(ctx, l, w, ctx.sut(l, c, w), ref((l, c)), "repeat-result")
    for c in ch.shuffle(w.calls)[:2]:
        judge_result(ctx, c[0], w, ctx.sut(c[0], c[1], w), ref(c), "repeat-result")
    d = changed(before, w)
    ctx.check(d is None, "data-changed", lambda: "history %s changed %s" % (done, d))


@scenario("C13", "aborts", quick=2400, thorough=80000, chunk=50, cpu_limit=120)
def aborts(ctx):
    """Calls of every solver on one set of objects; some broken off, all repeated."""
    ctx.real.update(REAL)
    abort_run(ctx, None)


@scenario("C13", "tracking", quick=1200, thorough=40000, chunk=50, cpu_limit=120)
def tracking(ctx):
    """The same for the discrete- and continuous-time tracking solvers."""
    ctx.real.update(REAL)
    abort_run(ctx, ("lqt", "clqt"))


@scenario("C13", "grid", quick=160, thorough=6000, chunk=20, needs=("jax",), cpu_limit=120)
def grid(ctx):
    """The same for the grid solvers."""
    ctx.real.update(["parallel_control.hjb_grid_1d_np", "parallel_control.my_assoc_scan"])
    abort_run(ctx, ("hjb",))


@scenario("C13", "concurrent", quick=800, thorough=24000, chunk=40, cpu_limit=120)
def concurrent(ctx):
    """One of several concurrent callers is interrupted and calls again while the others go on."""
    ctx.real.update(REAL)
    ch = ctx.ch
    w = make_world(ctx, None)
    if w is None:
        return
    ref = Reference(ctx, w)
    before = w.snap()
    n = 2 + ch.int(2)
    plan = [[w.calls[ch.int(len(w.calls))] for _ in range(1 + ch.int(2))] for _ in range(n)]
    exp = [[ref(c) for c in cs] for cs in plan]
    victim = ch.int(n)
    ctx.info.update({"family": w.family, "calls": [[c[0] for c in cs] for cs in plan], "victim": victim})
    ctx.step("plan", w.family, victim, *["+".join(c[0] for c in cs) for cs in plan])
    il = Interleaver(ctx, opcode=ch.chance(0.25))
    exc = Abort("caller interrupted")
    hits = []

    def body(cs):
        out = []
        for c in cs:
            try:
                out.append(c[1](w))
            except Abort as e:
                hits.append(e)
                out.append(c[1](w))
        return out
    for cs in plan:
        il.add(lambda cs=cs: body(cs))
    il.kill = {victim: 1 + ch.int(300)}
    il.kill_exc = exc
    for t, (cs, (ok, v)) in enumerate(zip(plan, il.run())):
        ctx.check(ok, "exception:concurrent", lambda: "thread %d (%s) raised %r" % (t, [c[0] for c in cs], v))
        for c, r, e in zip(cs, v, exp[t]):
            judge_result(ctx, "%s (thread %d, victim %d)" % (c[0], t, victim), w, r, e, "repeat-result")
    if victim not in il.kill:
        ctx.fault("caller_interrupted")
        ctx.check(len(hits) == 1, "error-swallowed", "the interrupt did not reach the caller")
    d = changed(before, w)
    ctx.check(d is None, "data-changed", lambda: "interrupted history changed %s" % d)


@scenario("C13", "tensorflow", quick=160, thorough=6000, chunk=10, needs=("tf",), cpu_limit=200)
def tensorflow(ctx):
    """Eager calls of the TensorFlow functions, broken off and repeated."""
    ctx.real.update(TF_REAL)
    ch = ctx.ch
    with Eager():
        kind, calls = tf_calls(ctx)
        if calls is None:
            return
        ctx.step("world", kind)
        for _ in range(1 + ch.int(3)):
            c = calls[ch.int(len(calls))]
            e = flat(ctx.sut(c[0], c[1]))
            if abort_call(ctx, c[0], c[1], lambda r: same(flat(r), e, 1e-6)):
                r = flat(ctx.sut(c[0], c[1]))
                ctx.check(same(r, e, 1e-7), "repeat-result", lambda: "%s after an abort differs from before" % c[0])
