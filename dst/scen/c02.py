"""C02: discrete-time LQR/LQT (NumPy), parallel passes under arbitrary schedules."""
import sys

import numpy as np

from ..cluster import Cluster, Patched, LevelOrder
from ..core import scenario
from ..lqmodel import rand_problem, build_lqt, reference, compare_lists, conditioned, open_loop_growth, variant

TOL = 1e-9
TOL_LONG = 1e-8
REAL = ["parallel_control.lqt_np (all passes, combine operations)", "SciPy/LAPACK kernels"]


def mod():
    return sys.modules["parallel_control.lqt_np"]


def judge_backward(ctx, tag, out, ref, tol=TOL):
    with ctx.judging(tag):
        Kx, d, S, v = out
    compare_lists(ctx, tag + ".Kx", Kx, ref.Kx, tol, "gain")
    compare_lists(ctx, tag + ".d", d, ref.d, tol, "offset")
    compare_lists(ctx, tag + ".S", S, ref.S, tol, "value-matrix")
    compare_lists(ctx, tag + ".v", v, ref.v, tol, "value-vector")


def judge_traj(ctx, tag, out, ref, tol=TOL):
    with ctx.judging(tag):
        u, x = out
    compare_lists(ctx, tag + ".u", u, ref.u, tol, "control")
    compare_lists(ctx, tag + ".x", x, ref.x, tol, "state")


def forward_all(ctx, lqt, p, x0, gains, ref, which=None):
    Kx, d, S, v = gains
    for name in ("seqForwardPass", "parForwardPass"):
        out = ctx.sut(name, getattr(lqt, name), x0, Kx, d)
        judge_traj(ctx, name, out, ref)
    for name in ("parFwdBwdPass", "parFwdBwdPass2"):
        out = ctx.sut(name, getattr(lqt, name), x0, Kx, d, S, v)
        judge_traj(ctx, name, out, ref)


def note(ctx, p):
    ctx.info.update({"T": p.T, "n": p.n, "m": p.m, "special": p.special,
                     "flags": "".join(sorted(k for k, v in p.flags.items() if v))})
    ctx.step("problem", p.T, p.n, p.m, p.special)


@scenario("C02", "cluster", quick=4000, thorough=120000, chunk=60)
def cluster(ctx):
    """Whole solve with every scan executed by the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("associative scan execution: simulated cluster")
    ch = ctx.ch
    p = rand_problem(ch, tmax=9)
    note(ctx, p)
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, mod(), p)
    ref = reference(p)
    if not conditioned(ctx, p, ref):
        return
    cl = Cluster(ctx)
    with Patched(np_scan=cl.scan):
        sq = ctx.sut("seqBackwardPass", lqt.seqBackwardPass)
        judge_backward(ctx, "seqBackwardPass", sq, ref)
        pb = ctx.sut("parBackwardPass", lqt.parBackwardPass)
        judge_backward(ctx, "parBackwardPass", pb, ref)
        forward_all(ctx, lqt, p, p.x0, pb, ref)
    ctx.check(abs(ref.cost - ref.value0) <= 1e-7 * (1 + abs(ref.cost)), "reference", "reference inconsistent")


@scenario("C02", "native", quick=3000, thorough=60000, chunk=60)
def native(ctx):
    """The repository's own scan with permuted levels; longer horizons; histories on one object."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    ch = ctx.ch
    p = rand_problem(ch, tmax=ch.pick([10, 20, 40]), T=ch.weighted([(None, 8), (63, 1), (64, 1), (65, 1)]))
    note(ctx, p)
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, mod(), p)
    tol = TOL_LONG if p.T > 12 else TOL
    ref = reference(p)
    if not conditioned(ctx, p, ref):
        return
    with LevelOrder(ctx):
        use(ctx, ch, p, lqt, ref, tol)
        for _ in range(ch.weighted([(0, 5), (1, 3), (2, 1)])):
            # the same object with changed data, or another object that shares the unchanged data
            same = ch.chance(0.6)
            p2, obj = variant(ch, p, lqt, same)
            ref2 = reference(p2)
            ctx.step("change", same)
            if conditioned(ctx, p2, ref2):
                use(ctx, ch, p2, obj, ref2, tol)
                if not same and ch.chance(0.5):
                    use(ctx, ch, p, lqt, ref, tol)
            if same:
                p, ref = p2, ref2
                if not conditioned(ctx, p, ref):
                    return


def use(ctx, ch, p, lqt, ref, tol):
    pb = ctx.sut("parBackwardPass", lqt.parBackwardPass)
    judge_backward(ctx, "parBackwardPass", pb, ref, tol)
    sq = None
    for j in range(1 + ch.int(3)):
        x0 = p.x0 if j == 0 else p.rs.randn(p.n) * 3.0
        ref2 = ref if j == 0 else reference(p, x0)
        g = pb
        if ch.chance(0.4):
            sq = sq or ctx.sut("seqBackwardPass", lqt.seqBackwardPass)
            judge_backward(ctx, "seqBackwardPass", sq, ref, tol)
            g = sq
        what = ch.pick(["parForwardPass", "parFwdBwdPass", "parFwdBwdPass2", "seqForwardPass", "batchSolution",
                        "seqSimulation", "cost"])
        ctx.step("call", what)
        if what in ("parForwardPass", "seqForwardPass"):
            judge_traj(ctx, what, ctx.sut(what, getattr(lqt, what), x0, g[0], g[1]), ref2, tol)
        elif what in ("parFwdBwdPass", "parFwdBwdPass2"):
            judge_traj(ctx, what, ctx.sut(what, getattr(lqt, what), x0, *g), ref2, tol)
        elif what == "batchSolution":
            if p.const_rdim and p.T <= 20 and open_loop_growth(p) < 100:
                judge_traj(ctx, what, ctx.sut(what, lqt.batchSolution, x0), ref2, 1e-7)
        elif what == "seqSimulation":
            uu = ref2.u[:ch.range(0, p.T)]
            xs = ctx.sut(what, lqt.seqSimulation, x0, uu)
            with ctx.judging(what):
                compare_lists(ctx, what, xs[:1], [x0], 1e-12, "simulated-state")
                compare_lists(ctx, what, xs[1:], [p.F[k] @ xs[k] + p.L[k] @ u + p.c[k] for k, u in enumerate(uu)],
                              1e-10, "simulated-state")
        else:
            J = ctx.sut(what, lqt.cost, ref2.u, ref2.x)
            ctx.check(abs(J - ref2.cost) <= 1e-9 * (1 + abs(ref2.cost)), "cost", "cost %r expected %r" % (J, ref2.cost))
    if not p.flags["Z"] and ch.chance(0.3):
        tb = ctx.sut("seqTransformedBackwardPass", lqt.seqTransformedBackwardPass)
        with ctx.judging("transformed"):
            compare_lists(ctx, "transformed.Kx", tb[0], ref.Kx, tol, "gain")
            compare_lists(ctx, "transformed.d", tb[1], ref.d, tol, "offset")


def rand_lqr(ch):
    p = rand_problem(ch, general=False, varying_r=False, tmax=14)
    n = p.n
    rs = p.rs
    a = rs.randn(n, n)
    X = a @ a.T / n + (0.1 * np.eye(n) if ch.chance(0.7) else 0.0)
    if ch.chance(0.1):
        X = np.zeros((n, n))
    b = rs.randn(n, n)
    XT = b @ b.T / n
    p.F, p.L, p.U = [p.F[0]] * p.T, [p.L[0]] * p.T, [p.U[0]] * p.T
    p.X, p.XT = [X] * p.T, XT
    p.H = [np.eye(n)] * p.T
    p.HT = np.eye(n)
    p.c = [np.zeros(n)] * p.T
    p.r = [np.zeros(n)] * p.T
    p.rT = np.zeros(n)
    p.M = [np.zeros((n, p.m))] * p.T
    return p


@scenario("C02", "lqr", quick=2500, thorough=50000, chunk=60)
def lqr(ctx):
    """Time-invariant regulator on the cluster or the native scan, and the doubling recursion."""
    ctx.real.update(REAL)
    ch = ctx.ch
    p = rand_lqr(ch)
    if ch.chance(0.1):
        p.T = ch.pick([31, 32, 33, 60])
        for k in "FLXUHcrMZs":
            setattr(p, k, [getattr(p, k)[0]] * p.T)
    note(ctx, p)
    L = mod().LQR(p.F[0], p.L[0], p.X[0], p.U[0], p.XT)
    ref = reference(p)
    if not conditioned(ctx, p, ref):
        return
    tol = TOL_LONG if p.T > 12 else TOL
    use_cluster = p.T <= 14 and ch.chance(0.7)
    if use_cluster:
        ctx.stub.add("associative scan execution: simulated cluster")
        seam = Patched(np_scan=Cluster(ctx).scan)
    else:
        seam = LevelOrder(ctx)
    with seam:
        for name in ("seqBackwardPass", "parBackwardPass"):
            out = ctx.sut("LQR." + name, getattr(L, name), p.T)
            with ctx.judging(name):
                Kx, S = out
            compare_lists(ctx, "LQR.%s.Kx" % name, Kx, ref.Kx, tol, "gain")
            compare_lists(ctx, "LQR.%s.S" % name, S, ref.S, tol, "value-matrix")
        for name in ("seqForwardPass", "parForwardPass"):
            judge_traj(ctx, "LQR." + name, ctx.sut("LQR." + name, getattr(L, name), p.x0, Kx), ref, tol)
    # doubling = balanced bracketing of 2**k identical elements
    k = 1 + ch.int(5)
    q = rand_lqr_same(p, 2 ** k - 1)
    rq = reference(q)
    if not conditioned(ctx, q, rq):
        return
    K, S = ctx.sut("LQR.lqrIter", L.lqrIter, 2 ** k - 1)
    compare_lists(ctx, "lqrIter.S", [S], [rq.S[0]], TOL_LONG, "value-matrix")
    compare_lists(ctx, "lqrIter.K", [K], [rq.Kx[0]], TOL_LONG, "gain")
    K, S = ctx.sut("LQR.lqrDouble", L.lqrDouble, k)
    ctx.step("double", k)
    compare_lists(ctx, "lqrDouble.S", [S], [rq.S[0]], TOL_LONG, "value-matrix")
    Kd = np.linalg.solve(p.U[0] + p.L[0].T @ rq.S[0] @ p.L[0], p.L[0].T @ rq.S[0] @ p.F[0])
    compare_lists(ctx, "lqrDouble.K", [K], [Kd], TOL_LONG, "gain")


def rand_lqr_same(p, T):
    import copy
    q = copy.copy(p)
    q.T = T
    for k in "FLXUHcrMZs":
        setattr(q, k, [getattr(p, k)[0]] * T)
    q.XT = p.X[0]
    return q


@scenario("C02", "long", quick=400, thorough=8000, chunk=20)
def long(ctx):
    """Long horizons with (possibly strongly) unstable but controllable dynamics."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    ch = ctx.ch
    p = rand_problem(ch, T=ch.range(40, 200), nmax=3)
    rs = p.rs
    n = p.n
    if p.m < n:
        p.L = [l if l.shape[1] >= n else np.hstack([l, rs.randn(n, n - l.shape[1])]) for l in [p.L[0]]] * p.T
        p.m = n
        p.U = [np.eye(n) + 0.1] * p.T
        p.Z = [np.eye(n)] * p.T
        p.s = [np.zeros(n)] * p.T
    else:
        p.L = [p.L[0]] * p.T
        p.U, p.Z = [p.U[0]] * p.T, [p.Z[0]] * p.T
    u, _, vt = np.linalg.svd(rs.randn(n, p.m))
    p.L = [u @ np.eye(n, p.m) @ vt] * p.T
    p.flags["M"] = ch.chance(0.5)
    a = rs.randn(n, n)
    p.F = [a * (rs.uniform(0.8, 2.2) / max(abs(np.linalg.eigvals(a))))] * p.T
    if np.linalg.norm(p.F[0], 2) > 4:
        p.F = [p.F[0] * (4 / np.linalg.norm(p.F[0], 2))] * p.T
    p.H = [np.eye(n)] * p.T
    p.X = [np.eye(n) * rs.uniform(0.5, 2.0)] * p.T
    p.M = [0.1 * rs.randn(n, p.m) if p.flags["M"] else np.zeros((n, p.m))] * p.T
    p.r = [rs.randn(n)] * p.T
    p.c = [rs.randn(n)] * p.T
    note(ctx, p)
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, mod(), p)
    ref = reference(p)
    with LevelOrder(ctx):
        sq = ctx.sut("seqBackwardPass", lqt.seqBackwardPass)
        judge_backward(ctx, "seqBackwardPass", sq, ref, TOL_LONG)
        pb = ctx.sut("parBackwardPass", lqt.parBackwardPass)
        judge_backward(ctx, "parBackwardPass", pb, ref, TOL_LONG)
        name = ch.pick(["parForwardPass", "parFwdBwdPass", "parFwdBwdPass2"])
        args = pb[:2] if name == "parForwardPass" else pb
        judge_traj(ctx, name, ctx.sut(name, getattr(lqt, name), p.x0, *args), ref, 1e-7)
    R = mod().LQR(p.F[0], p.L[0], p.X[0], p.U[0], p.X[0])
    q = rand_lqr_same(p, p.T)
    for k, z in (("c", np.zeros(n)), ("r", np.zeros(n)), ("s", np.zeros(p.m)), ("M", np.zeros((n, p.m))), ("Z", np.eye(p.m))):
        setattr(q, k, [z] * p.T)
    q.HT, q.rT = np.eye(n), np.zeros(n)
    rq = reference(q)
    K, S = ctx.sut("LQR.seqBackwardPass", R.seqBackwardPass, p.T)
    compare_lists(ctx, "LQR.seqBackwardPass.S", S, rq.S, TOL_LONG, "value-matrix")
    K, S = ctx.sut("LQR.lqrIter", R.lqrIter, p.T)
    compare_lists(ctx, "LQR.lqrIter.S", [S], [rq.S[0]], TOL_LONG, "value-matrix")
    K, S = ctx.sut("LQR.lqrDare", R.lqrDare)
    res = p.F[0].T @ S @ (p.F[0] - p.L[0] @ K) + p.X[0] - S
    ctx.check(np.abs(res).max() <= 1e-8 * (1 + np.abs(S).max()), "dare", "stationary equation residual %.3g" % np.abs(res).max())
