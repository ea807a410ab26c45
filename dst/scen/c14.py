"""C14: data generators interleaved with other consumers of randomness, in one process and across processes."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from ..abort import Abort
from ..core import HarnessError, REPO, scenario
from ..snap import diff, same, snap
from ..threads import Interleaver

KINDS = ["linear", "finite", "ge", "nonlinear"]
SEEDED = KINDS[:3]


def mod(name):
    return sys.modules["parallel_control." + name]


def model(kind, seed):
    """seed None: the documented default."""
    kw = {} if seed is None else {"seed": seed}
    return {"linear": lambda: mod("linear_model_np").LinearModel(**kw), "finite": lambda: mod("finite_model_np").FiniteModel(**kw),
            "ge": lambda: mod("ge_model_np").GEModel(**kw), "nonlinear": lambda: mod("nonlinear_model_np").NonlinearModel(**kw)}[kind]()


def generate(kind, m, size):
    if kind == "finite":
        return m.genData(size[0], size[1])
    if kind == "nonlinear":
        return m.genData(max(size[0], 4), size[1] % 4 + 1)
    return m.genData(size[0])


def pick_gen(ch, tmax):
    kind = ch.weighted([("linear", 3), ("finite", 3), ("ge", 3), ("nonlinear", 1)])
    seed = ch.weighted([(None, 1), (0, 1), (123, 2), (1, 1), (ch.int(1 << 20), 4)])
    return kind, seed, (ch.size(1, tmax), ch.pick([3, 5, 7, 21]))


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def restore(st):
    np.random.set_state((st[0][0], np.frombuffer(st[0][1], np.uint32), *st[0][2:]))
    random.setstate(st[1])


NOISE = ["rand", "randn", "choice", "randint", "uniform", "shuffle", "pyrandom", "pygauss", "pychoice", "reseed", "pyseed", "setstate"]


def draw(op, arg):
    """One use of the global generators by the rest of the program."""
    if op == "rand":
        return np.random.rand(1 + arg % 3).tolist()
    if op == "randn":
        return np.random.randn(1 + arg % 3).tolist()
    if op == "choice":
        return int(np.random.choice(5, p=[.1, .2, .3, .2, .2]))
    if op == "randint":
        return int(np.random.randint(0, 1000))
    if op == "uniform":
        return float(np.random.uniform(0.0, 1.0))
    if op == "shuffle":
        x = np.arange(5)
        np.random.shuffle(x)
        return x.tolist()
    if op == "pyrandom":
        return random.random()
    if op == "pygauss":
        return random.gauss(0, 1)
    if op == "pychoice":
        return random.choice("abcdef")
    if op == "reseed":
        return np.random.seed(arg)
    if op == "pyseed":
        return random.seed(arg)
    if op == "setstate":
        np.random.set_state(np.random.RandomState(arg).get_state())
        return None
    raise HarnessError(op)


def garbage(x):
    """A caller overwrites what it was given."""
    if isinstance(x, np.ndarray):
        try:
            x[...] = -7
        except ValueError:
            pass
    elif isinstance(x, (tuple, list)):
        for y in x:
            garbage(y)


class Expected:
    """The data generated when nothing else happens, by a fresh model."""

    def __init__(self, ctx):
        self.ctx, self.memo = ctx, {}

    def __call__(self, g):
        if g not in self.memo:
            kind, seed, size = g
            out = []
            for k in range(2):
                np.random.seed(k * 1000 + 1)
                random.seed(k)
                for _ in range(k * 5):
                    np.random.rand()
                st = global_state()
                out.append(snap(self.ctx.sut("genData", generate, kind, model(kind, seed), size)))
                self.ctx.check(global_state() == st, "global-state", lambda: "%s(seed=%r).genData changed a global random generator" % (kind, seed))
            d = diff(out[0], out[1], "data")
            self.ctx.check(d is None, "not-repeatable", lambda: "%s(seed=%r).genData%r: two generations differ: %s" % (kind, seed, size, d))
            self.memo[g] = out[0]
        return self.memo[g]


def judge(ctx, g, data, exp, what):
    d = diff(exp, snap(data), "data")
    ctx.check(d is None, "data-differs", lambda: "%s: %s(seed=%r).genData%r differs from the data of this seed: %s" % (what, g[0], g[1], g[2], d))


REAL = ["parallel_control.linear_model_np", "parallel_control.finite_model_np", "parallel_control.ge_model_np",
        "parallel_control.nonlinear_model_np", "numpy and random global generators"]


class Saved:
    """The worker's own global generators are left as they were."""

    def __enter__(self):
        self.st = global_state()

    def __exit__(self, *a):
        restore(self.st)
        return False


@scenario("C14", "threads", quick=3000, thorough=80000, chunk=50, cpu_limit=120)
def threads(ctx):
    """Generator threads and threads drawing from the global generators, control passed at every statement."""
    ctx.real.update(REAL)
    with Saved():
        threads_run(ctx)


def threads_run(ctx):
    ch = ctx.ch
    exp = Expected(ctx)
    ng, nn = 1 + ch.int(3), 1 + ch.int(2)
    gens = [[pick_gen(ch, 12) for _ in range(1 + ch.int(3))] for _ in range(ng)]
    noise = [[(ch.pick(NOISE), ch.int(1000)) for _ in range(1 + ch.int(12))] for _ in range(nn)]
    for gs in gens:
        for g in gs:
            exp(g)
    shared = {}
    share = ch.chance(0.5)

    def get(g):
        if not share:
            return model(g[0], g[1])
        if (g[0], g[1]) not in shared:
            shared[(g[0], g[1])] = model(g[0], g[1])
        return shared[(g[0], g[1])]
    models = [[ctx.sut("model", get, g) for g in gs] for gs in gens]
    np.random.seed(ch.int(1000))
    random.seed(ch.int(1000))
    start = global_state()
    log = []
    il = Interleaver(ctx, opcode=ch.chance(0.25))
    ctx.step("plan", share, *["+".join(g[0] for g in gs) for gs in gens], *["%d draws" % len(ns) for ns in noise])
    spoil = ch.chance(0.5)

    def gen_body(gs, ms):
        out = []
        for g, m in zip(gs, ms):
            d = generate(g[0], m, g[2])
            out.append(snap(d))
            if spoil:
                garbage(d)
        return out

    def noise_body(ops, i):
        for op, arg in ops:
            log.append((op, arg, draw(op, arg)))
            il.point(i)
    for gs, ms in zip(gens, models):
        il.add(lambda gs=gs, ms=ms: gen_body(gs, ms))
    for k, ops in enumerate(noise):
        il.add(lambda ops=ops, k=k: noise_body(ops, ng + k))
    if ch.chance(0.3):
        v = ch.int(ng)
        il.kill = {v: 1 + ch.int(120)}
        il.kill_exc = Abort("generation interrupted")
    killed = dict(il.kill)
    res = il.run()
    end = global_state()
    for t, gs in enumerate(gens):
        ok, v = res[t]
        if t in killed and t not in il.kill:
            ctx.fault("generation_interrupted")
            ctx.check(not ok and v is il.kill_exc, "interrupt-swallowed", "the interrupt did not reach the caller: %r" % (v,))
            for g, m in zip(gs, models[t]):
                judge(ctx, g, ctx.sut("genData", generate, g[0], m, g[2]), exp(g), "after an interrupted generation")
            continue
        ctx.check(ok, "exception:genData", lambda: "generation raised %r" % (v,))
        for g, s in zip(gs, v):
            d = diff(exp(g), s, "data")
            ctx.check(d is None, "data-differs", lambda: "%s(seed=%r).genData%r among other threads differs from the data of this seed: %s" % (g[0], g[1], g[2], d))
    restore(start)
    for op, arg, got in log:
        e = draw(op, arg)
        ctx.check(e == got, "noise-differs", lambda: "global draw %s returned %r, expected %r without the generators" % (op, got, e))
    ctx.check(global_state() == end, "global-state", "the global generators' state was changed by generating data")
    ctx.probe("global_draws", len(log))


@scenario("C14", "history", quick=3000, thorough=80000, chunk=50, cpu_limit=120)
def history(ctx):
    """Long mixed histories in one thread: sizes, seeds and models mixed, data overwritten, problems built from it."""
    ctx.real.update(REAL)
    with Saved():
        history_run(ctx)


def history_run(ctx):
    ch = ctx.ch
    exp = Expected(ctx)
    pool = [pick_gen(ch, 40) for _ in range(2 + ch.int(4))]
    for g in pool:
        exp(g)
    models = {}
    np.random.seed(ch.int(1000))
    random.seed(ch.int(1000))
    for _ in range(3 + ch.int(10)):
        what = ch.weighted([("gen", 5), ("noise", 3), ("problem", 1), ("new", 1)])
        ctx.step(what)
        if what == "noise":
            draw(ch.pick(NOISE), ch.int(1000))
            continue
        g = pool[ch.int(len(pool))]
        if what == "new" or (g[0], g[1]) not in models:
            models[(g[0], g[1])] = ctx.sut("model", model, g[0], g[1])
        m = models[(g[0], g[1])]
        size = g[2] if ch.chance(0.6) else pool[ch.int(len(pool))][2]
        g = (g[0], g[1], size)
        mid = global_state()
        e = exp(g)
        restore(mid)
        d = ctx.sut("genData", generate, g[0], m, size)
        ctx.check(global_state() == mid, "global-state", lambda: "%s.genData changed a global random generator" % g[0])
        judge(ctx, g, d, e, "in a history")
        if what == "problem" and size[0] >= 2:
            s = snap(d)
            if g[0] == "linear":
                ctx.sut("getLQT", m.getLQT, d, 1 + ch.int(3))
            elif g[0] == "finite":
                ctx.sut("getFSC", m.getFSC, d[0])
            elif g[0] == "nonlinear":
                ctx.sut("getLQT", m.getLQT, d[0], 1 + ch.int(3))
            ctx.check(global_state() == mid, "global-state", "building a problem changed a global random generator")
            x = diff(s, snap(d), "data")
            ctx.check(x is None, "data-changed", lambda: "building a problem changed the data: %s" % x)
        if ch.chance(0.5):
            garbage(d)


@scenario("C14", "seeds", quick=40, thorough=400, chunk=10, cpu_limit=120)
def seeds(ctx):
    """The seed matters: many seeds give more than one data set; equal seeds give equal ones on any model object."""
    ctx.real.update(REAL)
    ch = ctx.ch
    with Saved():
        for kind in SEEDED:
            base = ch.int(1 << 20)
            got = {}
            for k in range(8):
                st = global_state()
                a = snap(ctx.sut("genData", generate, kind, model(kind, base + k), (60, 21)))
                np.random.seed(base)
                b = snap(ctx.sut("genData", generate, kind, model(kind, base + k), (60, 21)))
                d = diff(a, b, "data")
                ctx.check(d is None, "not-repeatable", lambda: "%s(seed=%d): %s" % (kind, base + k, d))
                got[hashlib.sha256(repr(a).encode()).hexdigest()] = k
            ctx.step(kind, len(got))
            ctx.check(len(got) >= 2, "seed-ignored", lambda: "%s: 8 seeds from %d give one data set" % (kind, base))


CHILD = r"""
import sys, json, hashlib, random
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"
job = json.load(sys.stdin)
sys.path[:0] = [job["repo"], job["verif"]]
import importlib
for n in job["imports"]:
    importlib.import_module("parallel_control." + n)
import numpy as np
if job["noise"] is not None:
    np.random.seed(job["noise"]); random.seed(job["noise"]); np.random.rand(job["noise"] % 7)
from dst.scen.c14 import model, generate
from dst.snap import snap
out = []
for kind, seed, size in job["gens"]:
    out.append(hashlib.sha256(repr(snap(generate(kind, model(kind, seed), tuple(size)))).encode()).hexdigest())
print("\nDIGESTS " + json.dumps(out))
"""

IMPORTS = ["linear_model_np", "finite_model_np", "ge_model_np", "nonlinear_model_np"]


@scenario("C14", "processes", quick=48, thorough=600, chunk=3, cpu_limit=120)
def processes(ctx):
    """Fresh processes with other hash seeds, import orders, orders of generation and random states."""
    ctx.real.update(REAL)
    ch = ctx.ch
    gens = [pick_gen(ch, 60) for _ in range(6)]
    with Saved():
        exp = [hashlib.sha256(repr(snap(ctx.sut("genData", generate, k, model(k, s), z))).encode()).hexdigest() for k, s, z in gens]
    order = ch.shuffle(list(range(len(gens))))
    job = {"repo": REPO, "verif": os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
           "imports": ch.shuffle(IMPORTS), "noise": ch.pick([None, ch.int(1000)]), "gens": [gens[i] for i in order]}
    env = dict(os.environ, PYTHONHASHSEED=str(ch.pick([0, 1, 12345, ch.int(1 << 30)])), TZ=ch.pick(["UTC", "Asia/Tokyo"]))
    ctx.step("process", env["PYTHONHASHSEED"], job["noise"], *job["imports"])
    r = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(job), capture_output=True, text=True, env=env, timeout=200)
    line = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS ")]
    ctx.check(bool(line), "exception:process", lambda: "generation in a fresh process failed: %s" % r.stderr[-400:])
    got = json.loads(line[0][8:])
    for i, d in zip(order, got):
        ctx.check(d == exp[i], "process-dependent", lambda: "%s(seed=%r).genData%r differs in another process" % gens[i])
    ctx.fault("new_process")
