"""C03: discrete-time LQT on TensorFlow under arbitrary schedules, parallelism limits and execution modes."""
import sys

import numpy as np

from ..cluster import Cluster, Patched
from ..core import scenario
from ..lqmodel import rand_problem, build_lqt, reference, compare_lists, conditioned, cost
from ..tfutil import Eager, arrs, pick_limit

TOL = 1e-9
TOL_LONG = 1e-8
REAL = ["parallel_control.lqt_tf", "parallel_control.lqt_np (problem data)", "TensorFlow kernels"]


def lt():
    return sys.modules["parallel_control.lqt_tf"]


def make_problem(ch, tmax=9, T=None, general=True, dims=None):
    if dims is None:
        p = rand_problem(ch, tmax=tmax, general=general, varying_r=False, T=T)
    else:
        p = rand_problem(ch, tmax=tmax, general=general, varying_r=False, T=T, nmax=dims, mmax=dims)
    if p.flags["Z"]:
        p.flags["Z"] = False
        p.Z = [np.eye(p.m)] * p.T
    return p


class TFProblem:
    """Tensors of the canonical form the solvers take, and the way back to the general form."""

    def __init__(self, ctx, p, lqt):
        self.p = p
        self.general = p.flags["M"] or p.flags["s"] or ctx.ch.chance(0.2)
        if self.general:
            t = ctx.sut("lqt_np_to_tf_gen", lt().lqt_np_to_tf_gen, lqt)
            with ctx.judging("lqt_np_to_tf_gen"):
                (self.Fs, self.cs, self.Ls, self.Hs, self.HT, self.rs, self.rT, self.Xs, self.XT, self.Us,
                 self.Ms, self.ss) = t
            out = ctx.sut("lqt_gen_to_canon", lt().lqt_gen_to_canon, self.Fs, self.cs, self.Ls, self.Hs, self.rs,
                          self.Xs, self.Us, self.Ms, self.ss)
            with ctx.judging("lqt_gen_to_canon"):
                self.F, self.c, self.X = out
        else:
            t = ctx.sut("lqt_np_to_tf", lt().lqt_np_to_tf, lqt)
            with ctx.judging("lqt_np_to_tf"):
                (self.F, self.c, self.Ls, self.Hs, self.HT, self.rs, self.rT, self.X, self.XT, self.Us) = t

    def problem(self):
        return self.F, self.c, self.Ls, self.Hs, self.HT, self.rs, self.rT, self.X, self.XT, self.Us

    def gains(self, ctx, Kxs, ds):
        if not self.general:
            return Kxs, ds
        return ctx.sut("lqt_canon_to_gen", lt().lqt_canon_to_gen, Kxs, ds, self.Hs, self.rs, self.Us, self.Ms, self.ss)


def judge_back(ctx, tag, tp, out, ref, tol):
    with ctx.judging(tag):
        S, v, K, d = out
    compare_lists(ctx, tag + ".S", arrs(S), ref.S, tol, "value-matrix")
    compare_lists(ctx, tag + ".v", arrs(v), ref.v, tol, "value-vector")
    K, d = tp.gains(ctx, K, d)
    compare_lists(ctx, tag + ".Kx", arrs(K), ref.Kx, tol, "gain")
    compare_lists(ctx, tag + ".d", arrs(d), ref.d, tol, "offset")


def judge_fwd(ctx, tag, tp, out, ref, tol):
    """The canonical dynamics have the same states; the controls are mapped back by the general-form gains."""
    p = tp.p
    with ctx.judging(tag):
        x, u = out
        x, u = arrs(x), arrs(u)
    compare_lists(ctx, tag + ".x", x, ref.x, tol, "state")
    if tp.general:
        uref = [w - np.asarray(p.s[k], float) - np.linalg.solve(p.U[k], p.M[k].T @ (p.r[k] - p.H[k] @ ref.x[k]))
                for k, w in enumerate(ref.u)]
    else:
        uref = ref.u
    compare_lists(ctx, tag + ".u", u, uref, tol, "control")


def opt(mp):
    return {} if mp is None else {"max_parallel": mp}


def forward_calls(ctx, tp, x0, S, v, K, d, ref, tol, names, T):
    import tensorflow as tf
    x0t = tf.convert_to_tensor(x0, dtype=tf.float64)
    for name in names:
        fn = getattr(lt(), name)
        if name == "lqt_par_fwdbwdpass":
            mp = pick_limit(ctx.ch, T + 1)
            out = ctx.sut(name, fn, x0t, tp.F, tp.c, tp.Ls, tp.Hs, tp.rs, tp.X, tp.Us, S, v, K, d, **opt(mp))
        elif name == "lqt_par_forwardpass":
            mp = pick_limit(ctx.ch, T)
            out = ctx.sut(name, fn, x0t, tp.F, tp.c, tp.Ls, K, d, **opt(mp))
        else:
            out = ctx.sut(name, fn, x0t, tp.F, tp.c, tp.Ls, K, d)
        ctx.step("call", name)
        judge_fwd(ctx, name, tp, out, ref, tol)


def note(ctx, p):
    ctx.info.update({"T": p.T, "n": p.n, "m": p.m, "special": p.special})
    ctx.step("problem", p.T, p.n, p.m, p.special)


def run_all(ctx, p, tol, names_pick=False):
    ch = ctx.ch
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p)
    ref = reference(p)
    if not conditioned(ctx, p, ref):
        return
    tp = TFProblem(ctx, p, lqt)
    sb = ctx.sut("lqt_seq_backwardpass", lt().lqt_seq_backwardpass, *tp.problem())
    judge_back(ctx, "lqt_seq_backwardpass", tp, sb, ref, tol)
    mp = pick_limit(ch, p.T + 1)
    pb = ctx.sut("lqt_par_backwardpass", lt().lqt_par_backwardpass, *tp.problem(), **opt(mp))
    ctx.step("limit", mp)
    judge_back(ctx, "lqt_par_backwardpass", tp, pb, ref, tol)
    names = ["lqt_seq_forwardpass", "lqt_par_forwardpass", "lqt_par_fwdbwdpass"]
    S, v, K, d = sb if ch.chance(0.3) else pb
    forward_calls(ctx, tp, p.x0, S, v, K, d, ref, tol, names, p.T)
    # the whole loop in the general form: gains mapped back, simulated on the original dynamics
    if tp.general:
        Kg, dg = tp.gains(ctx, K, d)
        import tensorflow as tf
        out = ctx.sut("lqt_seq_forwardpass", lt().lqt_seq_forwardpass, tf.convert_to_tensor(p.x0, dtype=tf.float64),
                      tp.Fs, tp.cs, tp.Ls, Kg, dg)
        with ctx.judging("general"):
            compare_lists(ctx, "general.x", arrs(out[0]), ref.x, tol, "state")
            compare_lists(ctx, "general.u", arrs(out[1]), ref.u, tol, "control")
    elif not p.flags["M"] and not p.flags["s"]:
        import tensorflow as tf
        xs = tf.convert_to_tensor(np.array(ref.x))
        us = tf.convert_to_tensor(np.array(ref.u))
        J = float(ctx.sut("lqt_cost", lt().lqt_cost, xs, us, tp.Hs, tp.HT, tp.rs, tp.rT, tp.X, tp.XT, tp.Us))
        ctx.check(abs(J - ref.cost) <= 1e-9 * (1 + abs(ref.cost)), "cost", "cost %r expected %r" % (J, ref.cost))


@scenario("C03", "cluster", quick=640, thorough=40000, chunk=20, needs=("tf",))
def cluster(ctx):
    """Eager execution, every combine operation is a task of the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("tfp.math.scan_associative: simulated cluster")
    p = make_problem(ctx.ch, tmax=8)
    note(ctx, p)
    cl = Cluster(ctx)
    with Eager(), Patched(tf_scan=cl.tf_scan):
        run_all(ctx, p, TOL)


@scenario("C03", "eager", quick=400, thorough=20000, chunk=25, needs=("tf",))
def eager(ctx):
    """Eager execution with TensorFlow Probability's own scan; parallelism limits."""
    ctx.real.update(REAL)
    ctx.real.add("tfp.math.scan_associative")
    p = make_problem(ctx.ch, tmax=ctx.ch.pick([10, 20, 40]))
    note(ctx, p)
    with Eager():
        run_all(ctx, p, TOL_LONG)


@scenario("C03", "graph", quick=40, thorough=2000, chunk=5, needs=("tf",), cpu_limit=200)
def graph(ctx):
    """Graph execution with the library's own scan; histories of calls that share traced functions."""
    ctx.real.update(REAL)
    ctx.real.add("tfp.math.scan_associative")
    ch = ctx.ch
    T = ch.weighted([(1, 1), (2, 1), (3, 1), (4, 1), (5, 2), (8, 2), (15, 1), (16, 1), (23, 1)])
    p = make_problem(ch, T=T, dims=3)
    note(ctx, p)
    with Eager(False):
        run_all(ctx, p, TOL_LONG)
