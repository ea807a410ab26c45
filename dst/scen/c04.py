"""C04: finite-state control; parallel dynamic programming against exact dynamic programming."""
import sys

import numpy as np

from ..cluster import Cluster, Patched, LevelOrder
from ..core import scenario
from ..tfutil import Eager, arrs, pick_limit

TOL = 1e-9


class FS:
    pass


def rand_fsc(ch, tmax=9, T=None, nmax=6, umax=4):
    p = FS()
    if T is None:
        T = ch.weighted([(1, 1), (2, 1), (3, 1), (0, 7)])
        if T == 0:
            T = ch.range(4, max(tmax, 5))
    p.T = T
    p.nx = 1 + ch.int(nmax)
    p.nu = 1 + ch.int(umax)
    rs = p.rs = np.random.RandomState(ch.seed())
    p.tables = ch.weighted([("random", 4), ("chain", 2), ("absorbing", 2), ("permutation", 1), ("sink", 1)])
    p.costs = ch.weighted([("real", 4), ("int", 3), ("smallint", 3), ("intreal", 2), ("penalty", 3), ("large", 2),
                           ("negative", 2), ("float32", 1)])
    p.vary_f = ch.chance(0.6)
    p.vary_L = ch.chance(0.7)

    def table():
        if p.tables == "random":
            return rs.randint(0, p.nx, size=(p.nx, p.nu))
        if p.tables == "chain":
            return np.clip(np.arange(p.nx)[:, None] + np.arange(p.nu)[None, :] - p.nu // 2, 0, p.nx - 1)
        if p.tables == "absorbing":
            f = rs.randint(0, p.nx, size=(p.nx, p.nu))
            f[-1, :] = p.nx - 1
            return f
        if p.tables == "permutation":
            return np.stack([rs.permutation(p.nx) for _ in range(p.nu)], axis=1)
        return np.full((p.nx, p.nu), rs.randint(p.nx))

    def cost(shape, terminal=False):
        k = p.costs
        if k == "real":
            return rs.randn(*shape)
        if k == "float32":
            return rs.randint(-40, 40, size=shape).astype(np.float32)
        if k == "int":
            return rs.randint(0, 100, size=shape)
        if k == "smallint":
            return rs.randint(0, 3, size=shape) * (1 if rs.rand() < 0.5 else 1.0)
        if k == "intreal":
            return rs.rand(*shape) * 3 if terminal else rs.randint(0, 4, size=shape)
        if k == "penalty":
            c = rs.rand(*shape) * 5
            big = 10.0 ** p.mag
            c[rs.rand(*shape) < 0.4] = big
            return c
        if k == "large":
            return rs.randint(1, 50, size=shape) * 10.0 ** p.mag
        return -rs.rand(*shape) * 10
    p.mag = ch.pick([3, 6, 9, 12, 15, 21, 25])
    nf = T if p.vary_f else 1
    nl = T if p.vary_L else 1
    p.f = [table() for _ in range(nf)]
    p.L = [cost((p.nx, p.nu)) for _ in range(nl)]
    if not p.vary_f:
        p.f = p.f * T
    if not p.vary_L:
        p.L = p.L * T
    p.LT = cost((p.nx,), True)
    p.defLT = ch.chance(0.1)
    if p.defLT:
        p.LT = np.ones(p.nx)
    p.x0 = rs.randint(p.nx)
    return p


def build(ctx, p):
    ch = ctx.ch
    F = sys.modules["parallel_control.fsc_np"].FSC
    f = list(p.f) if p.vary_f or ch.chance(0.5) else p.f[0]
    L = list(p.L) if p.vary_L or ch.chance(0.5) else p.L[0]
    kw = {}
    if not isinstance(f, list) and not isinstance(L, list):
        kw["T"] = p.T
    if not p.defLT:
        kw["LT"] = p.LT
    return ctx.sut("FSC.checkAndExpand", F.checkAndExpand, f, L, **kw)


def solve(p):
    """Reference backward recursion in double precision, plain loops."""
    V = [None] * (p.T + 1)
    V[p.T] = [float(v) for v in p.LT]
    for k in reversed(range(p.T)):
        V[k] = [min(float(p.L[k][x, u]) + V[k + 1][int(p.f[k][x, u])] for u in range(p.nu)) for x in range(p.nx)]
    return V


def forward_values(p, x0):
    inf = float("inf")
    Vf = [[inf] * p.nx for _ in range(p.T + 1)]
    Vf[0][x0] = 0.0
    for k in range(p.T):
        for x in range(p.nx):
            if Vf[k][x] < inf:
                for u in range(p.nu):
                    y = int(p.f[k][x, u])
                    Vf[k + 1][y] = min(Vf[k + 1][y], Vf[k][x] + float(p.L[k][x, u]))
    return Vf


def scale_of(p):
    return 1.0 + max(max(float(np.abs(l).max()) for l in p.L), float(np.abs(p.LT).max()))


def unique_path(p, V, x0):
    """The optimal state path when every other path is clearly worse, else None."""
    Vf = forward_values(p, x0)
    opt = V[0][x0]
    path = []
    gap = 1e-6 * (1 + abs(opt))
    for k in range(p.T + 1):
        near = [x for x in range(p.nx) if Vf[k][x] + V[k][x] <= opt + gap]
        if len(near) != 1:
            return None
        path.append(near[0])
    return path


def judge_values(ctx, p, V, tag, Vs):
    with ctx.judging(tag):
        Vs = [np.asarray(v, float) for v in Vs]
        ctx.check(len(Vs) == p.T + 1, "value-length", lambda: "%s: %d value functions, expected %d" % (tag, len(Vs), p.T + 1))
        for k in range(p.T + 1):
            ctx.check(Vs[k].shape == (p.nx,), "value-shape", lambda: "%s: V[%d] shape %s" % (tag, k, Vs[k].shape))
            for x in range(p.nx):
                ok = abs(Vs[k][x] - V[k][x]) <= p.tol * (1 + abs(V[k][x]))
                ctx.check(ok, "value", lambda: "%s: V[%d][%d] = %r, true cost-to-go %r" % (tag, k, x, float(Vs[k][x]), V[k][x]))


def judge_policy(ctx, p, V, tag, us):
    """Every reported action must attain the cost-to-go from every state."""
    with ctx.judging(tag):
        us = [np.asarray(u) for u in us]
        ctx.check(len(us) == p.T, "policy-length", "%s: %d actions, expected %d" % (tag, len(us), p.T))
        for k in range(p.T):
            ctx.check(us[k].shape == (p.nx,), "policy-shape", lambda: "%s: u[%d] shape %s" % (tag, k, us[k].shape))
            for x in range(p.nx):
                u = int(us[k][x])
                ctx.check(u == us[k][x] and 0 <= u < p.nu, "policy-range", lambda: "%s: u[%d][%d] = %r" % (tag, k, x, us[k][x]))
                q = float(p.L[k][x, u]) + V[k + 1][int(p.f[k][x, u])]
                ctx.check(q <= V[k][x] + p.tol * (1 + abs(V[k][x]) + abs(q)), "policy-suboptimal",
                          lambda: "%s: action %d at step %d state %d costs %r, optimum %r" % (tag, u, k, x, q, V[k][x]))


def judge_path(ctx, p, V, tag, us, xs, x0, consistent=True, unique=None):
    with ctx.judging(tag):
        us = [int(u) for u in np.asarray([int(u) for u in us])] if len(us) else []
        xs = [int(x) for x in xs]
        ctx.check(len(us) == p.T and len(xs) == p.T + 1, "path-length",
                  lambda: "%s: %d controls, %d states for %d steps" % (tag, len(us), len(xs), p.T))
        ctx.check(xs[0] == x0, "path-start", "%s starts in state %d, not in %d" % (tag, xs[0], x0))
        J = 0.0
        for k in range(p.T):
            ctx.check(0 <= us[k] < p.nu and 0 <= xs[k + 1] < p.nx, "path-range", "%s: step %d out of range" % (tag, k))
            ctx.check(int(p.f[k][xs[k], us[k]]) == xs[k + 1], "path-inconsistent",
                      lambda: "%s: step %d: f[%d,%d]=%d but state is %d" % (tag, k, xs[k], us[k], p.f[k][xs[k], us[k]], xs[k + 1]))
            J += float(p.L[k][xs[k], us[k]])
        J += float(p.LT[xs[-1]])
        ctx.check(abs(J - V[0][x0]) <= 1e-9 * (1 + abs(V[0][x0])) * (p.T + 1), "path-cost",
                  lambda: "%s: path costs %r, optimum %r" % (tag, J, V[0][x0]))
        if unique is not None:
            ctx.check(xs == unique, "path-unique", "%s: %s, unique optimum %s" % (tag, xs, unique))


def note(ctx, p):
    ctx.info.update({"T": p.T, "nx": p.nx, "nu": p.nu, "costs": p.costs, "tables": p.tables})
    ctx.step("problem", p.T, p.nx, p.nu, p.costs, p.tables, p.mag)
    p.tol = 1e-5 if p.costs == "float32" else TOL


REAL = ["parallel_control.fsc_np"]


def numpy_run(ctx, p, with_batch=True):
    ch = ctx.ch
    fsc = build(ctx, p)
    V = solve(p)
    backs = []
    order = ["seqBackwardPass", "parBackwardPass"]
    for name in (order if ch.chance(0.7) else order[::-1]):
        out = ctx.sut(name, getattr(fsc, name))
        with ctx.judging(name):
            us, Vs = out
        judge_values(ctx, p, V, name, Vs)
        judge_policy(ctx, p, V, name, us)
        backs.append((us, Vs))
    nstart = 1 + ch.int(3)
    for j in range(nstart):
        x0 = int(p.x0) if j == 0 else ch.int(p.nx)
        uniq = unique_path(p, V, x0)
        us, Vs = backs[ch.int(2)]
        ctx.step("start", x0, uniq is not None)
        for name in ("seqForwardPass", "parForwardPass"):
            out = ctx.sut(name, getattr(fsc, name), x0, us)
            with ctx.judging(name):
                mu, mx = out
            judge_path(ctx, p, V, name, mu, mx, x0, unique=uniq)
        sx = ctx.sut("seqSimulation", fsc.seqSimulation, x0, mu)
        judge_path(ctx, p, V, "seqSimulation", mu, sx, x0)
        J = ctx.sut("cost", fsc.cost, mx, mu)
        with ctx.judging("cost"):
            ctx.check(abs(float(J) - V[0][x0]) <= 1e-6 * (1 + abs(V[0][x0])) if p.costs == "float32" else
                      abs(float(J) - V[0][x0]) <= 1e-9 * (1 + abs(V[0][x0])), "cost", "cost %r, optimum %r" % (J, V[0][x0]))
        if uniq is not None:
            ctx.probe("unique_path")
            for name in ("parFwdBwdPass", "parFwdBwdPass2"):
                out = ctx.sut(name, getattr(fsc, name), x0, us, Vs)
                with ctx.judging(name):
                    mu, mx = out
                judge_path(ctx, p, V, name, mu, mx, x0, unique=uniq)
    if with_batch and p.nu ** p.T <= 300:
        out = ctx.sut("batch_solution", fsc.batch_solution, x0)
        with ctx.judging("batch_solution"):
            mu, mx, mc = out
            ctx.check(abs(float(mc) - V[0][x0]) <= 1e-6 * (1 + abs(V[0][x0])), "batch-cost", "batch %r, optimum %r" % (mc, V[0][x0]))
        judge_path(ctx, p, V, "batch_solution", mu, mx, x0, unique=uniq)


@scenario("C04", "cluster", quick=5000, thorough=150000, chunk=100)
def cluster(ctx):
    """NumPy version, every combine operation is a task of the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("associative scan execution: simulated cluster")
    p = rand_fsc(ctx.ch)
    note(ctx, p)
    with Patched(np_scan=Cluster(ctx).scan):
        numpy_run(ctx, p)


@scenario("C04", "native", quick=3000, thorough=80000, chunk=100)
def native(ctx):
    """NumPy version on the repository's scan with permuted levels, longer horizons."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    ch = ctx.ch
    p = rand_fsc(ch, tmax=ch.pick([6, 12, 40]))
    note(ctx, p)
    with LevelOrder(ctx):
        numpy_run(ctx, p, with_batch=p.T < 8)


def opt(mp):
    return {} if mp is None else {"max_parallel": mp}


def tf_run(ctx, p):
    import tensorflow as tf
    ch = ctx.ch
    m = sys.modules["parallel_control.fsc_tf"]
    fsc = build(ctx, p)
    V = solve(p)
    out = ctx.sut("fsc_np_to_tf", m.fsc_np_to_tf, fsc)
    with ctx.judging("fsc_np_to_tf"):
        fs, Ls, LT = out
    out = ctx.sut("fsc_seq_backwardpass", m.fsc_seq_backwardpass, fs, Ls, LT)
    with ctx.judging("fsc_seq_backwardpass"):
        us1, Vs1 = out
        a, b = arrs(Vs1), arrs(us1)
    judge_values(ctx, p, V, "fsc_seq_backwardpass", a)
    judge_policy(ctx, p, V, "fsc_seq_backwardpass", b)
    mp = pick_limit(ch, p.T + 1)
    ctx.step("limit", mp)
    out = ctx.sut("fsc_par_backwardpass", m.fsc_par_backwardpass, fs, Ls, LT, **opt(mp))
    with ctx.judging("fsc_par_backwardpass"):
        us2, Vs2 = out
        a, b = arrs(Vs2), arrs(us2)
    judge_values(ctx, p, V, "fsc_par_backwardpass", a)
    judge_policy(ctx, p, V, "fsc_par_backwardpass", b)
    x0 = int(p.x0)
    x0t = tf.constant(x0, dtype=fs.dtype)
    uniq = unique_path(p, V, x0)
    us, Vs = (us1, Vs1) if ch.chance(0.4) else (us2, Vs2)
    out = ctx.sut("fsc_seq_forwardpass", m.fsc_seq_forwardpass, x0t, fs, us)
    with ctx.judging("fsc_seq_forwardpass"):
        x, u = (arrs(t) for t in out)
    judge_path(ctx, p, V, "fsc_seq_forwardpass", u, x, x0, unique=uniq)
    out = ctx.sut("fsc_par_forwardpass", m.fsc_par_forwardpass, x0t, fs, us, **opt(pick_limit(ch, p.T + 1)))
    with ctx.judging("fsc_par_forwardpass"):
        u, x = (arrs(t) for t in out)
    judge_path(ctx, p, V, "fsc_par_forwardpass", u, x, x0, unique=uniq)
    if uniq is not None:
        ctx.probe("unique_path")
        out = ctx.sut("fsc_par_fwdbwdpass", m.fsc_par_fwdbwdpass, x0t, fs, Ls, us, Vs, **opt(pick_limit(ch, p.T + 1)))
        with ctx.judging("fsc_par_fwdbwdpass"):
            u, x = (arrs(t) for t in out)
        judge_path(ctx, p, V, "fsc_par_fwdbwdpass", u, x, x0, unique=uniq)


@scenario("C04", "tfcluster", quick=640, thorough=30000, chunk=20, needs=("tf",))
def tfcluster(ctx):
    """TensorFlow version, eager, on the simulated cluster."""
    ctx.real.update(["parallel_control.fsc_tf", "parallel_control.fsc_np (problem data)", "TensorFlow kernels"])
    ctx.stub.add("tfp.math.scan_associative: simulated cluster")
    p = rand_fsc(ctx.ch)
    note(ctx, p)
    with Eager(), Patched(tf_scan=Cluster(ctx).tf_scan):
        tf_run(ctx, p)


@scenario("C04", "tfeager", quick=480, thorough=20000, chunk=20, needs=("tf",))
def tfeager(ctx):
    """TensorFlow version, eager, library scan, all admissible parallelism limits, longer horizons."""
    ctx.real.update(["parallel_control.fsc_tf", "tfp.math.scan_associative", "TensorFlow kernels"])
    p = rand_fsc(ctx.ch, tmax=ctx.ch.pick([8, 20, 40]))
    note(ctx, p)
    with Eager():
        tf_run(ctx, p)


@scenario("C04", "tfgraph", quick=48, thorough=2000, chunk=6, needs=("tf",), cpu_limit=200)
def tfgraph(ctx):
    """TensorFlow version in graph mode, traced functions shared by a history of calls."""
    ctx.real.update(["parallel_control.fsc_tf", "tfp.math.scan_associative", "TensorFlow kernels"])
    ch = ctx.ch
    p = rand_fsc(ch, T=ch.weighted([(1, 1), (2, 1), (3, 1), (4, 1), (7, 1), (8, 1), (16, 1)]), nmax=4, umax=3)
    note(ctx, p)
    with Eager(False):
        tf_run(ctx, p)
