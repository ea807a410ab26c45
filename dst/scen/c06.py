"""C06: partial condensing preserves the solution."""
import sys

import numpy as np

from ..cluster import Cluster, Patched, LevelOrder
from ..core import scenario
from ..lqmodel import rand_problem, build_lqt, reference, compare_lists, conditioned, open_loop_growth, variant
from ..snap import snap, diff
from ..tfutil import Eager, arrs, pick_limit

TOL = 1e-6


def make_problem(ch, tmax=9, T=None, dims=4):
    p = rand_problem(ch, tmax=tmax, general=False, varying_r=False, T=T, nmax=dims, mmax=3)
    return p


def pick_block(ch, T):
    return ch.weighted([(1, 1), (2, 3), (3, 2), (T, 2), (T + 1, 1), (max(T - 1, 1), 1), (2 * T + 1, 1), (0, 4)]) or ch.range(1, T + 2)


def good(ctx, p, ref):
    return conditioned(ctx, p, ref) and open_loop_growth(p) < 50


def judge(ctx, tag, out, ref):
    with ctx.judging(tag):
        u, x = out
    compare_lists(ctx, tag + ".u", u, ref.u, TOL, "control")
    compare_lists(ctx, tag + ".x", x, ref.x, TOL, "state")


def solve_np(ctx, clqt, x0, how):
    if how == "batchSolution":
        return ctx.sut(how, clqt.batchSolution, x0)
    back, fwd = how.split("+")
    g = ctx.sut(back, getattr(clqt, back))
    with ctx.judging(back):
        Kx, d, S, v = g
    if fwd.startswith("parFwdBwd"):
        return ctx.sut(fwd, getattr(clqt, fwd), x0, Kx, d, S, v)
    return ctx.sut(fwd, getattr(clqt, fwd), x0, Kx, d)


NP_WAYS = ["parBackwardPass+parForwardPass", "parBackwardPass+parFwdBwdPass", "parBackwardPass+parFwdBwdPass2",
           "seqBackwardPass+seqForwardPass", "parBackwardPass+seqForwardPass", "seqBackwardPass+parForwardPass"]


def history(ctx, ch, nmax_problems=3, tmax=9):
    """Condense, solve and expand several problems with shared and separate condensers."""
    L = sys.modules["parallel_control.lqt_np"]
    C = sys.modules["parallel_control.condensing_np"].LQTCondenser
    conds = [ctx.sut("LQTCondenser", C) for _ in range(1 + ch.int(2))]
    state = [None] * len(conds)
    shared = False
    problems = []
    for _ in range(1 + ch.int(nmax_problems)):
        p = make_problem(ch, tmax=tmax)
        ref = reference(p)
        if not good(ctx, p, ref):
            continue
        lqt = ctx.sut("checkAndExpand", build_lqt, ch, L, p)
        problems.append((p, ref, lqt, snap(lqt)))
    if not problems:
        return
    for _ in range(1 + ch.int(5)):
        i = ch.int(len(conds))
        if ch.chance(0.3):
            # the same problem object with changed data, or another object that shares the unchanged data
            j = ch.int(len(problems))
            same = ch.chance(0.5)
            p, obj = variant(ch, problems[j][0], problems[j][2], same, deep=not shared)
            shared = shared or not same
            ref = reference(p)
            ctx.step("change", j, same)
            ok = good(ctx, p, ref)
            if same:
                state = [None if st is not None and st[0] == j else st for st in state]
                if ok:
                    problems[j] = (p, ref, obj, snap(obj))
                else:
                    return
            elif ok:
                problems.append((p, ref, obj, snap(obj)))
        if state[i] is None or ch.chance(0.6):
            j = ch.int(len(problems)) if ch.chance(0.6) else len(problems) - 1
            p, ref, lqt, s0 = problems[j]
            Nc = pick_block(ch, p.T)
            ctx.step("condense", i, j, "T", p.T, "n", p.n, "m", p.m, p.special, "Nc", Nc)
            cl = ctx.sut("condense", conds[i].condense, lqt, Nc)
            d = diff(s0, snap(lqt))
            ctx.check(d is None, "argument-changed", "condense changed the problem: %s" % d)
            state[i] = (j, cl, Nc)
        j, cl, Nc = state[i]
        p, ref, lqt, s0 = problems[j]
        with ctx.judging("condense"):
            ctx.check(len(cl.F) == -(-p.T // Nc), "blocks", lambda: "%d blocks for T=%d, Nc=%d" % (len(cl.F), p.T, Nc))
        x0 = p.x0 if ch.chance(0.6) else p.rs.randn(p.n)
        ref2 = reference(p, x0)
        how = ch.pick(NP_WAYS)
        ctx.step("solve", i, j, how)
        sol = solve_np(ctx, cl, x0, how)
        out = ctx.sut("convertUX", conds[i].convertUX, *sol)
        judge(ctx, "Nc=%d %s" % (Nc, how), out, ref2)


@scenario("C06", "cluster", quick=2500, thorough=80000, chunk=50)
def cluster(ctx):
    """Histories on shared condensers, parallel solves on the simulated cluster."""
    ctx.real.update(["parallel_control.condensing_np", "parallel_control.lqt_np"])
    ctx.stub.add("associative scan execution: simulated cluster")
    with Patched(np_scan=Cluster(ctx).scan):
        history(ctx, ctx.ch)


@scenario("C06", "native", quick=2000, thorough=60000, chunk=50)
def native(ctx):
    """The same with the repository's scan, permuted levels and longer horizons."""
    ctx.real.update(["parallel_control.condensing_np", "parallel_control.lqt_np", "parallel_control.my_assoc_scan"])
    with LevelOrder(ctx):
        history(ctx, ctx.ch, tmax=ctx.ch.pick([8, 16, 30]))


def tf_run(ctx, p, ref):
    import tensorflow as tf
    ch = ctx.ch
    lt = sys.modules["parallel_control.lqt_tf"]
    ct = sys.modules["parallel_control.condensing_tf"]
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p)
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = ctx.sut("lqt_np_to_tf", lt.lqt_np_to_tf, lqt)
    Nc = pick_block(ch, p.T)
    ctx.step("condense", "T", p.T, p.special, "Nc", Nc)
    cond = ct.condense
    if ch.chance(0.3) and not tf.config.functions_run_eagerly():
        cond = tf.function(ct.condense)
    out = ctx.sut("condense", cond, Fs, cs, Ls, Hs, rs, Xs, Us, Nc)
    with ctx.judging("condense"):
        F, c, L, H, r, X, U, M, s, Lam, cbar, Lbar = out
        Tc = int(F.shape[0])
        ctx.check(Tc == -(-p.T // Nc), "blocks", "%d blocks for T=%d, Nc=%d" % (Tc, p.T, Nc))
    F2, c2, X2 = ctx.sut("lqt_gen_to_canon", lt.lqt_gen_to_canon, F, c, L, H, r, X, U, M, s)
    lim = pick_limit(ch, Tc + 1)
    kw = {} if lim is None else {"max_parallel": lim}
    par = ch.chance(0.7)
    if par:
        S, v, K, d = ctx.sut("lqt_par_backwardpass", lt.lqt_par_backwardpass, F2, c2, L, H, HT, r, rT, X2, XT, U, **kw)
    else:
        S, v, K, d = ctx.sut("lqt_seq_backwardpass", lt.lqt_seq_backwardpass, F2, c2, L, H, HT, r, rT, X2, XT, U)
    x0 = tf.convert_to_tensor(p.x0, dtype=tf.float64)
    how = ch.pick(["par", "fwdbwd", "seq"])
    if how == "fwdbwd":
        xs, u2 = ctx.sut("lqt_par_fwdbwdpass", lt.lqt_par_fwdbwdpass, x0, F2, c2, L, H, r, X2, U, S, v, K, d, **kw)
        K, d = ctx.sut("lqt_canon_to_gen", lt.lqt_canon_to_gen, K, d, H, r, U, M, s)
        with ctx.judging("controls"):
            us = d - tf.linalg.matvec(K, xs[:-1])
    else:
        K, d = ctx.sut("lqt_canon_to_gen", lt.lqt_canon_to_gen, K, d, H, r, U, M, s)
        fn = lt.lqt_par_forwardpass if how == "par" else lt.lqt_seq_forwardpass
        xs, us = ctx.sut(how, fn, x0, F, c, L, K, d, **(kw if how == "par" else {}))
    ctx.step("solve", par, how)
    out = ctx.sut("convertUX", ct.convertUX, us, xs, Lam, cbar, Lbar, p.T)
    with ctx.judging("convertUX"):
        u, x = (arrs(t) for t in out)
    judge(ctx, "tf Nc=%d %s" % (Nc, how), (u, x), ref)


@scenario("C06", "tf", quick=320, thorough=20000, chunk=10, needs=("tf",))
def tfrun(ctx):
    """TensorFlow version, eager; solves on the simulated cluster or on the library scan."""
    ctx.real.update(["parallel_control.condensing_tf", "parallel_control.lqt_tf", "TensorFlow kernels"])
    ch = ctx.ch
    p = make_problem(ch, tmax=8)
    ref = reference(p)
    if not good(ctx, p, ref):
        return
    if ch.chance(0.6):
        ctx.stub.add("tfp.math.scan_associative: simulated cluster")
        with Eager(), Patched(tf_scan=Cluster(ctx).tf_scan):
            tf_run(ctx, p, ref)
    else:
        ctx.real.add("tfp.math.scan_associative")
        with Eager():
            tf_run(ctx, p, ref)


@scenario("C06", "tfgraph", quick=24, thorough=1200, chunk=3, needs=("tf",), cpu_limit=200)
def tfgraph(ctx):
    """TensorFlow version, graph mode."""
    ctx.real.update(["parallel_control.condensing_tf", "parallel_control.lqt_tf", "tfp.math.scan_associative", "TensorFlow kernels"])
    ch = ctx.ch
    p = make_problem(ch, T=ch.weighted([(1, 1), (2, 1), (3, 1), (6, 2), (7, 2), (12, 1)]), dims=3)
    ref = reference(p)
    if not good(ctx, p, ref):
        return
    with Eager(False):
        tf_run(ctx, p, ref)
