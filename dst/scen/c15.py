"""C15: benchmark routines on a simulated clock."""
import contextlib
import io
import sys

import numpy as np

from ..core import scenario
from ..simclock import SimClock, TimePatched
from ..tfutil import Eager

# solver functions the benchmark routines call, with the number of values each returns
STUBS = {
    "lqt_tf": {"lqt_seq_backwardpass": 4, "lqt_par_backwardpass": 4, "lqt_seq_forwardpass": 2, "lqt_par_forwardpass": 2,
               "lqt_par_fwdbwdpass": 2, "lqt_gen_to_canon": 3, "lqt_canon_to_gen": 2},
    "condensing_tf": {"condense": 12, "convertUX": 2},
    "fsc_tf": {"fsc_seq_backwardpass": 2, "fsc_par_backwardpass": 2, "fsc_seq_forwardpass": 2, "fsc_par_forwardpass": 2,
               "fsc_par_fwdbwdpass": 2},
    "clqt_tf": {"clqt_seq_backwardpass_defaults": 4, "par_backwardpass_defaults": 4, "clqt_seq_backwardpass": 4,
                "clqt_par_backwardpass": 4, "clqt_seq_forwardpass": 2, "clqt_par_forwardpass": 2,
                "clqt_seq_fwdbwdpass_defaults": 5, "clqt_seq_fwdbwdpass": 3, "clqt_combine_fwdbwd": 2, "clqt_par_fwdbwdpass": 2},
    "parareal_clqt_tf": {"pclqt_backwardpass": 4, "pclqt_forwardpass": 2, "pclqt_fwdbwdpass": 3},
    "nlqt_tf": {"nlqt_iterate_seq": 2, "nlqt_iterate_par_1": 2, "nlqt_iterate_par_2": 2},
    "hjb_grid_1d_tf": {"seq_bw_pass_upwind": 1, "direct_shooting_block_V": 1, "seq_bw_pass_assoc": 1, "par_bw_pass": 1},
    "viterbi_tf": {"viterbi_seq_fwbw": 2, "viterbi_par_fwbw": 2, "viterbi_seqpar_fwbw": 2, "viterbi_par_fwbwfw": 2},
}

# (module, routine, kind)
ROUTINES = [("linear_speedtest", n, "linear") for n in (
    "lqt_sequential_bw_speedtest", "lqt_parallel_bw_speedtest", "lqt_sequential_bwfw_speedtest", "lqt_parallel_bwfw_1_speedtest",
    "lqt_parallel_bwfw_2_speedtest", "lqt_sequential_cond_bwfw_speedtest", "lqt_parallel_cond_bwfw_1_speedtest",
    "lqt_parallel_cond_bwfw_2_speedtest")]
ROUTINES += [("finite_speedtest", n, "finite") for n in (
    "fsc_seq_bw_speedtest", "fsc_par_bw_speedtest", "fsc_seq_bwfw_speedtest", "fsc_par_bwfw_1_speedtest", "fsc_par_bwfw_2_speedtest")]
ROUTINES += [("nonlinear_speedtest", n, "nonlinear") for n in (
    "nlqt_iter_seq_speedtest", "nlqt_iter_par_1_speedtest", "nlqt_iter_par_2_speedtest")]
ROUTINES += [("contlin_speedtest", n, "contlin") for n in (
    "clqt_seq_bw_speedtest", "clqt_seq_bw_fw_speedtest", "clqt_par_bw_speedtest", "clqt_par_bw_fw_speedtest",
    "clqt_par_bw_fwbw_speedtest", "clqt_parareal_bw_speedtest", "clqt_parareal_bw_fw_speedtest", "clqt_parareal_bw_fwbw_speedtest")]
ROUTINES += [("hjb_grid_1d_speedtest", n, "hjb") for n in ("seq_upwind_speedtest", "seq_assoc_speedtest", "par_assoc_speedtest")]
ROUTINES += [("viterbi_tf", n, "viterbi") for n in (
    "viterbi_fsc_seq_bwfw_speedtest", "viterbi_fsc_par_bwfw_speedtest", "viterbi_fsc_par_bwfwbw_speedtest",
    "viterbi_seq_fwbw_speedtest", "viterbi_par_fwbw_speedtest", "viterbi_seqpar_fwbw_speedtest", "viterbi_par_fwbwfw_speedtest")]
GENERATORS = ("linear", "finite", "nonlinear")


def mod(name):
    return sys.modules["parallel_control." + name]


class World:
    """Stubbed solvers; every call takes simulated time and may see the wall clock adjusted."""

    def __init__(self, cost, clock):
        self.cost, self.clock = cost, clock
        self.calls = []              # [(name, cost)] since the last problem started
        self.problems = [self.calls]
        self.undo = []

    def new_problem(self):
        self.calls = []
        self.problems.append(self.calls)

    def spend(self, name):
        c = self.cost(len(self.problems) - 1, len(self.calls), name)
        self.calls.append((name, c))
        self.clock.advance(c)

    def _stub(self, name, arity):
        import tensorflow as tf
        z = tf.zeros((1, 1), tf.float64)
        out = z if arity == 1 else (z,) * arity

        def stub(*a, **kw):
            self.spend(name)
            return out
        return stub

    def __enter__(self):
        swap = {}
        for mn, fs in STUBS.items():
            m = mod(mn)
            for n, k in fs.items():
                f = getattr(m, n, None)
                if f is not None:
                    swap[id(f)] = (f, self._stub(mn + "." + n, k))
        for mn, m in list(sys.modules.items()):
            if m is not None and mn.startswith("parallel_control."):
                for k, v in list(vars(m).items()):
                    if id(v) in swap:
                        self.undo.append((m, k, v))
                        setattr(m, k, swap[id(v)][1])
        V = mod("viterbi_np").Viterbi_np
        for n in ("seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi"):
            f = getattr(V, n)
            self.undo.append((V, n, f))
            setattr(V, n, self._reference(f))
        return self

    def _reference(self, f):
        def g(*a, **kw):
            self.clock.advance(50.0)
            return f(*a, **kw)
        return g

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        self.undo = []
        return False


class SlowModel:
    """A model whose data takes simulated time to generate."""

    def __init__(self, world, cost):
        self.m = mod("ge_model_np").GEModel(3)
        self.prior, self.Pi, self.Po = self.m.prior, self.m.Pi, self.m.Po
        self.world, self.cost = world, cost

    def genData(self, T):
        self.world.clock.advance(self.cost)
        return self.m.genData(T)


_Z = {}


def zeros(*s):
    import tensorflow as tf
    if s not in _Z:
        _Z[s] = tf.zeros(s, tf.float64)
    return _Z[s]


def problem(kind, T, D):
    if kind == "linear":
        return (zeros(D), zeros(T, D, D), zeros(T, D), zeros(T, D, 1), zeros(T, 1, D), zeros(1, D), zeros(T, 1), zeros(1),
                zeros(T, 1, 1), zeros(1, 1), zeros(T, 1, 1))
    if kind == "finite":
        return (0, zeros(T, D, 2), zeros(T, D, 2), zeros(D))
    return (zeros(T, 1), zeros(T + 1, D), None, None, None, zeros(T, 1, D), zeros(1, D), zeros(T, 1), zeros(1), zeros(T, 1, 1),
            zeros(1, 1), zeros(T, 1, 1))


def feed(world, kind, sizes, gencost):
    for k, (T, D) in enumerate(sizes):
        world.clock.advance(gencost[k % len(gencost)])
        world.new_problem()
        yield problem(kind, T, D)
        world.new_problem()


def run(routine, world, sizes, gencost, n_iter, clock, extra):
    """Calls the routine; returns its value."""
    import tensorflow as tf
    mn, name, kind = routine
    fn = getattr(mod(mn), name)
    kw = dict(extra)
    if n_iter is not None:
        kw["n_iter"] = n_iter
    with Eager(), TimePatched(clock), world, contextlib.redirect_stdout(io.StringIO()):
        if kind in GENERATORS:
            return fn(feed(world, kind, sizes, gencost), **kw)
        world.new_problem()
        if kind == "viterbi":
            return fn(SlowModel(world, gencost[0]), sizes[0][0], **kw)
        if kind == "hjb":
            f = lambda *a: zeros(1, 1)
            x = tf.linspace(tf.constant(-1.0, tf.float64), tf.constant(1.0, tf.float64), 6)
            return fn((f, f, f, 1.0, x, x), sizes[0][0], **kw)
        f = lambda t: zeros(1, 1)
        return fn((zeros(2), zeros(2, 2), zeros(2, 2), zeros(2), zeros(1)) + (f,) * 7, sizes[0][0], sizes[0][1], **kw)


_LEN = {}


def calls_per_solve(ctx, routine):
    """Solver calls that make up one solve, learnt by running with one and with two measured solves."""
    if routine not in _LEN:
        n = []
        for it in (1, 2):
            clock = SimClock()
            w = World(lambda p, k, name: 1.0, clock)
            ctx.sut(routine[1], run, routine, w, [(2, 2)], [0.0], it, clock, {})
            n.append(sum(len(c) for c in w.problems))
        ctx.check(n[1] > n[0], "not-solved", lambda: "%s: the number of solves does not follow n_iter" % routine[1])
        _LEN[routine] = n[1] - n[0]
    return _LEN[routine]


def duration(rs, kind):
    if kind == "equal":
        return 0.25
    if kind == "tiny":
        return 1e-6 * (1 + rs.rand())
    if kind == "heavy":
        return 0.001 * (1.0 + rs.pareto(1.1))
    return rs.rand()


def bench(ctx, routine):
    ch = ctx.ch
    mn, name, kind = routine
    L = calls_per_solve(ctx, routine)
    n_iter = ch.weighted([(1, 2), (2, 2), (3, 2), (None, 1), (7, 1), (25, 1)])
    n = 10 if n_iter is None else n_iter
    dist = ch.pick(["equal", "tiny", "heavy", "uniform"])
    rs = np.random.RandomState(ch.seed())
    sizes = [(1 + ch.int(9), 1 + ch.int(4)) for _ in range(1 + ch.int(4) if kind in GENERATORS else 1)]
    compile_cost = ch.pick([0.0, 1.0, 100.0, 0.01])
    gencost = [ch.pick([0.0, 5.0, 1000.0]) for _ in range(3)]
    clock = SimClock(wall=1.6e9 + ch.int(10 ** 8), mono=float(ch.int(10 ** 5)), cpu_rate=ch.pick([0.0, 0.1, 1.0, 8.0]))
    jumpy = ch.chance(0.7)
    jumps = []

    def cost(p, k, label):
        if jumpy and ch.chance(0.12):
            delta = ch.pick([-3600.0, 3600.0, -0.5, 0.5, -0.01, 1e-4, -86400.0 * 30, 7.0])
            jumps.append((p, k))
            clock.step_wall(delta)
            ctx.fault("wall_clock_back" if delta < 0 else "wall_clock_forward")
            ctx.step("wall", p, k, delta)
        c = duration(rs, dist)
        if k < L:
            c += compile_cost * (1.0 if k == 0 else 0.1)
        if dist == "heavy" and c > 1.0:
            ctx.fault("stalled_solve")
        return c
    w = World(cost, clock)
    extra = {}
    if name.find("cond_") >= 0 and ch.chance(0.5):
        extra["Nc"] = 1 + ch.int(5)
    if name.find("parareal") >= 0 and ch.chance(0.5):
        extra["parareal_niter"] = 1 + ch.int(4)
    if ch.chance(0.3):
        extra["device"] = "/CPU:0"
    ctx.info.update({"routine": name, "n_iter": n_iter, "sizes": sizes, "durations": dist})
    ctx.step("run", name, n_iter, dist, compile_cost, *sizes)
    out = ctx.sut(name, run, routine, w, sizes, gencost, n_iter, clock, extra)
    ctx.sim_time += clock.now
    ctx.step("reads", *sorted(clock.reads))
    exp = []
    blocks = [c for c in w.problems[1:][::2]] if kind in GENERATORS else [w.problems[1]]
    for c in blocks:
        ctx.check(len(c) >= L * (n + 1), "not-solved", lambda: "%s: %d solver calls for %d measured solves of %d calls and one first run"
                  % (name, len(c), n, L))
        exp.append(sum(x for _, x in c[L:L * (n + 1)]) / n)
    with ctx.judging(name):
        if kind in GENERATORS:
            T, D, times = out
            ctx.check([int(t) for t in T] == [s[0] for s in sizes], "sizes", lambda: "%s: T=%s for problems %s" % (name, list(T), sizes))
            ctx.check([int(d) for d in D] == [s[1] for s in sizes], "sizes", lambda: "%s: D=%s for problems %s" % (name, list(D), sizes))
        else:
            times = [out[0]]
        ctx.check(len(times) == len(exp), "sizes", lambda: "%s: %d times for %d problems" % (name, len(times), len(exp)))
        for k, (t, e) in enumerate(zip(times, exp)):
            t = float(t)
            ctx.check(t >= 0.0, "negative-time", lambda: "%s: reported %r s for problem %d" % (name, t, k))
            ctx.check(abs(t - e) <= 3e-9 + 1e-7 * e, "wrong-mean", lambda: "%s: reported %.9g s per solve for problem %d, the measured solves took %.9g s on average (clock adjusted %d times)"
                      % (name, t, k, e, clock.steps))


REAL = ["parallel_control." + n for n in ("linear_speedtest", "finite_speedtest", "nonlinear_speedtest", "contlin_speedtest",
                                          "hjb_grid_1d_speedtest", "viterbi_tf (benchmark routines)")]


@scenario("C15", "routines", quick=3000, thorough=60000, chunk=100, needs=("tf", "speed"), cpu_limit=120)
def routines(ctx):
    """Every benchmark routine; solver calls are stubs that take simulated time."""
    ctx.real.update(REAL)
    ctx.stub.update(["solver functions called by the benchmarks", "clocks of the time module"])
    bench(ctx, ctx.ch.pick(ROUTINES))


@scenario("C15", "text", quick=200, thorough=5000, chunk=25, needs=("tf", "speed"), cpu_limit=120)
def text(ctx):
    """The text correction experiments measure their methods themselves."""
    from .c16 import text_experiment
    ctx.real.update(["experiments-viterbi/run_text_experiments.py", "experiments-viterbi/run_text_experiments_2.py"])
    ctx.sut("text experiment", text_experiment, ctx, True)
