"""C11: grid HJB block combination; parallel scan against min-plus dynamic programming and closed forms."""
import sys

import numpy as np

from ..cluster import Cluster, Patched, LevelOrder
from ..core import scenario
from ..snap import snap, diff
from ..tfutil import Eager, pick_limit

GRIDS = [3, 5, 8, 2, 12]


# ---------------------------------------------------------------------------------------------------
# Plain min-plus tables
# ---------------------------------------------------------------------------------------------------

def plain_tables(ch, n, N):
    """n cost tables of size N x N; only infinity-free ties are compared exactly anyway."""
    rs = np.random.RandomState(ch.seed())
    kind = ch.pick(["real", "ties", "constant", "penalty", "infinite", "wide", "negative", "banded"])
    out = []
    for _ in range(n):
        if kind == "ties":
            V = rs.randint(0, 3, size=(N, N)).astype(float)
        elif kind == "constant":
            V = np.full((N, N), float(rs.randint(-2, 3)))
        elif kind in ("penalty", "infinite"):
            V = rs.rand(N, N)
            V[rs.rand(N, N) < 0.3] = 1e20 if kind == "penalty" else np.inf
        elif kind == "wide":
            V = rs.randn(N, N) * 10.0 ** rs.randint(-3, 12, size=(N, N))
        elif kind == "negative":
            V = -10 * rs.rand(N, N)
        elif kind == "banded":
            V = rs.rand(N, N) + np.where(np.abs(np.subtract.outer(np.arange(N), np.arange(N))) > 1, np.inf, 0.0)
        else:
            V = rs.randn(N, N)
        out.append(V)
    return kind, out


def minplus_from_end(tables):
    """Suffix combinations, evaluated from the end, plain loops over the middle index."""
    out = [np.asarray(tables[-1], float)]
    for V in reversed(tables[:-1]):
        N = V.shape[0]
        W = out[-1]
        R = np.full((N, W.shape[1]), np.inf)
        for j in range(N):
            R = np.minimum(R, V[:, j][:, None] + W[j][None, :])
        out.append(R)
    return out[::-1]


def close(ctx, tag, got, ref, scale, mask=None, tol=1e-9, cls="value"):
    with ctx.judging(tag):
        ctx.check(len(got) == len(ref), "value-length", lambda: "%s: %d tables, expected %d" % (tag, len(got), len(ref)))
        for k in range(len(ref)):
            a, b = np.asarray(got[k], float), np.asarray(ref[k], float)
            ctx.check(a.shape == b.shape, "value-shape", lambda: "%s: table %d has shape %s, expected %s" % (tag, k, a.shape, b.shape))
            fin = np.isfinite(b)
            m = np.ones(b.shape, bool) if mask is None else mask
            bad = m & ~np.where(fin, np.abs(a - np.where(fin, b, 0.0)) <= tol * (scale + np.abs(np.where(fin, b, 0.0))), a == b)
            if bad.any():
                i = tuple(int(v) for v in np.argwhere(bad)[0])
                ctx.check(False, cls, lambda: "%s: V[%d]%s = %r, expected %r (%d of %d entries wrong)"
                          % (tag, k, list(i), float(a[i]), float(b[i]), int(bad.sum()), bad.size))
            ctx.probe("tables_compared")


def scale_of(tables):
    v = np.concatenate([np.asarray(t, float).ravel() for t in tables])
    v = v[np.isfinite(v)]
    return 1.0 + (float(np.abs(v).max()) if v.size else 0.0) * 1e-3


def abs_scale(tables):
    return 1.0 + sum(float(np.max(np.abs(t[np.isfinite(t)]))) if np.isfinite(t).any() else 0.0 for t in map(np.asarray, tables))


# ---------------------------------------------------------------------------------------------------
# Tables on which the three-point interpolation is exact
# ---------------------------------------------------------------------------------------------------

class Fam:
    """tables: the elements (last one terminal when `terminal`), ref: exact suffix combinations, mask: judged part."""


def quad(rs, x, lo=1, flat=False):
    """Quadratic on the grid with its vertex strictly inside, or increasing from either edge of the grid (where the
    neighbours on both sides are the same point); returns (values, exact minimum)."""
    N = len(x)
    m = rs.uniform(-2, 2)
    if not flat and N > 1 and rs.rand() < 0.25:
        g = m + np.concatenate([[0.0], np.cumsum(rs.uniform(0.1, 1.0, size=N - 1) * 10.0 ** rs.uniform(-1, 1))])
        return (g if rs.rand() < 0.5 else g[::-1].copy()), m
    if flat or N < 3:
        return np.full(N, m), m
    c = 10.0 ** rs.uniform(-1, 1)
    i = rs.randint(lo, N - lo)
    h = x[1] - x[0]
    off = rs.choice([0.0, rs.uniform(-0.45, 0.45)])
    r = x[i] + off * h
    return c * (x - r) ** 2 + m, m


def separable(ch, x, n, same):
    """V_k(x, y) = p_k(x) + q_k(y) with q_k + p_{k+1} quadratic: min over the middle state is exact."""
    rs = np.random.RandomState(ch.seed())
    N = len(x)
    flat = ch.weighted([(False, 3), (True, 1)])
    some = ch.chance(0.3)
    ps = [rs.randn(N) for _ in range(n)]
    if same:
        ps = [ps[0]] * n
    mins, qs = [], []
    f = None
    for k in range(n):
        isflat = flat or (some and rs.rand() < 0.5)
        if same and k > 0 and k < n - 1:
            qs.append(qs[0])
            mins.append(mins[0])
            continue
        if k < n - 1 or not same:
            g, m = quad(rs, x, flat=isflat)
            nxt = ps[k + 1] if k + 1 < n else rs.randn(N)
            qs.append(g - nxt)
            mins.append(m)
        else:
            qs.append(qs[0] if n > 1 else rs.randn(N))
            mins.append(mins[0] if n > 1 else 0.0)
    f = Fam()
    f.kind = "separable"
    f.tables = [ps[k][:, None] + qs[k][None, :] for k in range(n)]
    f.q = qs
    f.p = ps
    f.mins = mins
    g, mt = quad(rs, x, flat=flat or (some and rs.rand() < 0.5))
    f.LT = g - qs[-1]
    f.mT = mt
    f.ref = []
    for k in range(n):
        f.ref.append(ps[k][:, None] + qs[-1][None, :] + sum(mins[k:n - 1]))
    f.refT = [ps[k] + sum(mins[k:n - 1]) + mt for k in range(n)] + [f.LT]
    f.depth = 0
    return f


def distance(ch, x, n, same):
    """V_k(x, y) = a_k (x - y)^2 + phi(y) - phi(x) + c_k; LT = b (x - r)^2 - phi + d.  Combination is harmonic in a."""
    rs = np.random.RandomState(ch.seed())
    N = len(x)
    phi = rs.randn(N) * ch.pick([0.0, 1.0])
    phis = [phi] * (n + 1)
    if not same and ch.chance(0.5):
        phis = [rs.randn(N) for _ in range(n + 1)]
    zero = ch.weighted([("none", 4), ("all", 1), ("some", 1)])
    a = [10.0 ** rs.uniform(-1, 1) for _ in range(n)]
    if zero == "all":
        a = [0.0] * n
    elif zero == "some":
        a = [0.0 if rs.rand() < 0.4 else v for v in a]
    c = [rs.uniform(-1, 1) for _ in range(n)]
    if same:
        a, c = [a[0]] * n, [c[0]] * n
    b = 0.0 if zero != "none" and rs.rand() < 0.5 else 10.0 ** rs.uniform(-1, 1)
    i = rs.randint(min(n + 1, (N - 1) // 2), max(N - n - 1, (N - 1) // 2 + 1))
    h = x[1] - x[0]
    r = x[i] + rs.choice([0.0, rs.uniform(-0.45, 0.45)]) * h
    d = rs.uniform(-1, 1)
    D = np.subtract.outer(x, x) ** 2
    f = Fam()
    f.kind = "distance"
    f.tables = [a[k] * D + phis[k + 1][None, :] - phis[k][:, None] + c[k] for k in range(n)]
    f.LT = b * (x - r) ** 2 - phis[n] + d

    def harm(u, v):
        return 0.0 if u == 0 or v == 0 else u * v / (u + v)
    f.ref, f.refT = [], []
    for k in range(n):
        s = a[k]
        for j in range(k + 1, n):
            s = harm(s, a[j])
        f.ref.append(s * D + phis[n][None, :] - phis[k][:, None] + sum(c[k:]))
        f.refT.append(harm(s, b) * (x - r) ** 2 - phis[k] + sum(c[k:]) + d)
    f.refT.append(f.LT)
    f.depth = n
    return f


def family(ch, x, n, same):
    """Interior depth that stays exact is len - 2*(n+1); otherwise the separable kind is used."""
    N = len(x)
    if N >= 2 * (n + 1) + 3 and ch.chance(0.6):
        return distance(ch, x, n, same)
    return separable(ch, x, n, same)


def mask1(f, N):
    d = f.depth + 1 if f.depth else 0
    m = np.zeros(N, bool)
    m[d:N - d] = True
    return m


def make_grid(ch, N):
    rs = np.random.RandomState(ch.seed())
    lo = rs.uniform(-3, 1)
    return lo + np.arange(N) * 10.0 ** rs.uniform(-1, 0.3)


def note(ctx, **kw):
    ctx.info.update(kw)
    ctx.step("problem", *["%s=%s" % i for i in sorted(kw.items())])


REAL = ["parallel_control.hjb_grid_1d_np"]


def np_plain(ctx, h, tmax):
    ch = ctx.ch
    N = ch.pick(GRIDS)
    n = ch.size(1, tmax)
    kind, tables = plain_tables(ch, n, N)
    note(ctx, N=N, blocks=n, tables=kind)
    before = snap(tables)
    ref = minplus_from_end(tables)
    sc = abs_scale(tables)
    out = ctx.sut("par_backward_pass_scan", h.par_backward_pass_scan, tables)
    close(ctx, "par_backward_pass_scan", out, ref, sc, tol=1e-12)
    d = diff(before, snap(tables))
    ctx.check(d is None, "input-modified", lambda: "par_backward_pass_scan changed its input: %s" % d)
    if n >= 2 and ch.chance(0.5):
        i = ch.int(n - 1)
        W = ctx.sut("combine_V2", h.combine_V2, tables[i], tables[i + 1])
        close(ctx, "combine_V2", [W], [minplus_from_end(tables[i:i + 2])[0]], sc, tol=1e-12)


def np_interp(ctx, h, tmax):
    ch = ctx.ch
    N = ch.pick(GRIDS)
    n = ch.size(1, tmax)
    x = make_grid(ch, N)
    f = family(ch, x, n, False)
    note(ctx, N=N, blocks=n, tables=f.kind)
    sc = abs_scale(f.tables + [f.LT])
    m = mask1(f, N)
    mask = m[:, None] & m[None, :]
    out = ctx.sut("par_backward_pass_scan_interp", h.par_backward_pass_scan_interp, f.tables)
    close(ctx, "par_backward_pass_scan_interp", out, f.ref, sc, mask)
    if n >= 2 and ch.chance(0.4):
        i = ch.int(n - 1)
        W1 = ctx.sut("combine_V_interp", h.combine_V_interp, f.tables[i], f.tables[i + 1])
        W2 = ctx.sut("combine_V_interp2", h.combine_V_interp2, f.tables[i], f.tables[i + 1])
        close(ctx, "combine_V_interp/combine_V_interp2", [W1], [np.asarray(W2)], sc, mask)
    # the solver class: one table for every block
    f = family(ch, x, n, True)
    sc = abs_scale(f.tables + [f.LT])
    m = mask1(f, N)
    f.LT = np.asarray(f.LT)

    def LT(v):
        return np.interp(v, x, f.LT)
    bV = f.tables[0].copy()
    hjb = h.HJB_Grid_1d(None, None, LT, 1.0, n, 1, x)
    order = ["seqBackwardPass_assoc", "parBackwardPass"]
    for name in (order if ch.chance(0.6) else order[::-1]):
        out = ctx.sut(name, getattr(hjb, name), bV)
        close(ctx, name, out, f.refT, sc, m)
        ctx.check(np.array_equal(bV, f.tables[0]), "input-modified", "%s changed the block table" % name)


@scenario("C11", "np_cluster", quick=2400, thorough=60000, chunk=50, needs=("jax",))
def np_cluster(ctx):
    """NumPy/JAX combination rules, every combination a task of the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("associative scan execution: simulated cluster")
    h = sys.modules["parallel_control.hjb_grid_1d_np"]
    with Patched(np_scan=Cluster(ctx).scan):
        (np_plain if ctx.ch.chance(0.4) else np_interp)(ctx, h, 9)


@scenario("C11", "np_native", quick=1200, thorough=30000, chunk=50, needs=("jax",))
def np_native(ctx):
    """NumPy/JAX version on the repository's scan with permuted levels, more blocks."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    h = sys.modules["parallel_control.hjb_grid_1d_np"]
    tmax = ctx.ch.pick([6, 16, 40])
    with LevelOrder(ctx):
        (np_plain if ctx.ch.chance(0.4) else np_interp)(ctx, h, tmax)


def opt(mp):
    return {} if mp is None else {"max_parallel": mp}


def tf_plain(ctx, h, tmax, n=None):
    import tensorflow as tf
    import tensorflow_probability as tfp
    ch = ctx.ch
    N = ch.pick(GRIDS)
    n = ch.size(1, tmax) if n is None else n
    kind, tables = plain_tables(ch, n, N)
    note(ctx, N=N, blocks=n, tables=kind)
    ref = minplus_from_end(tables)
    sc = abs_scale(tables)
    rev = tf.constant(np.stack(tables[::-1]), dtype=tf.float64)
    out = ctx.sut("scan(combine_V_rev)", tfp.math.scan_associative, h.combine_V_rev, rev)
    with ctx.judging("scan(combine_V_rev)"):
        out = list(np.asarray(out))[::-1]
    close(ctx, "scan(combine_V_rev)", out, ref, sc, tol=1e-12)
    if n >= 2 and ch.chance(0.5):
        a, b = (tf.constant(np.stack(t), dtype=tf.float64) for t in (tables[:-1], tables[1:]))
        W = ctx.sut("combine_V2", h.combine_V2, a, b)
        close(ctx, "combine_V2", list(np.asarray(W)), [minplus_from_end(tables[i:i + 2])[0] for i in range(n - 1)], sc, tol=1e-12)


def tf_interp(ctx, h, tmax, n=None, N=None, hetero=True):
    import tensorflow as tf
    import tensorflow_probability as tfp
    ch = ctx.ch
    N = ch.pick(GRIDS) if N is None else N
    n = ch.size(1, tmax) if n is None else n
    x = make_grid(ch, N)
    if hetero:
        f = family(ch, x, n, False)
        note(ctx, N=N, blocks=n, tables=f.kind)
        sc = abs_scale(f.tables + [f.LT])
        m = mask1(f, N)
        rev = tf.constant(np.stack(f.tables[::-1]), dtype=tf.float64)
        out = ctx.sut("scan(combine_V_interp_rev)", tfp.math.scan_associative, h.combine_V_interp_rev, rev)
        with ctx.judging("scan(combine_V_interp_rev)"):
            out = list(np.asarray(out))[::-1]
        close(ctx, "scan(combine_V_interp_rev)", out, f.ref, sc, m[:, None] & m[None, :])
    f = family(ch, x, n, True)
    sc = abs_scale(f.tables + [f.LT])
    m = mask1(f, N)
    xt = tf.constant(x, dtype=tf.float64)
    values = tf.constant(f.LT, dtype=tf.float64)

    def LT(v):
        """Terminal cost given by its values on the grid; v consists of grid points."""
        i = tf.cast(tf.round((v - xt[0]) / (xt[1] - xt[0])), tf.int32)
        return tf.gather(values, i)
    bV = tf.constant(f.tables[0], dtype=tf.float64)
    mp = pick_limit(ch, n + 1)
    note(ctx, N=N, blocks=n, tables=f.kind, limit=mp)
    for name in (("seq", "par") if ch.chance(0.6) else ("par", "seq")):
        if name == "seq":
            tag = "seq_bw_pass_assoc"
            out = ctx.sut(tag, h.seq_bw_pass_assoc, LT, n, xt, bV)
        else:
            tag = "par_bw_pass"
            out = ctx.sut(tag, h.par_bw_pass, LT, n, xt, bV, **opt(mp))
        with ctx.judging(tag):
            out = list(np.asarray(out))
        close(ctx, tag, out, f.refT, sc, m)


TFREAL = ["parallel_control.hjb_grid_1d_tf", "TensorFlow kernels"]


@scenario("C11", "tf_cluster", quick=640, thorough=20000, chunk=20, needs=("tf",))
def tf_cluster(ctx):
    """TensorFlow combination rules, eager, on the simulated cluster."""
    ctx.real.update(TFREAL)
    ctx.stub.add("tfp.math.scan_associative: simulated cluster")
    h = sys.modules["parallel_control.hjb_grid_1d_tf"]
    with Eager(), Patched(tf_scan=Cluster(ctx).tf_scan):
        (tf_plain if ctx.ch.chance(0.35) else tf_interp)(ctx, h, 8)


@scenario("C11", "tf_eager", quick=320, thorough=10000, chunk=20, needs=("tf",))
def tf_eager(ctx):
    """TensorFlow version, eager, library scan, admissible parallelism limits, more blocks."""
    ctx.real.update(TFREAL + ["tfp.math.scan_associative"])
    h = sys.modules["parallel_control.hjb_grid_1d_tf"]
    tmax = ctx.ch.pick([6, 12, 33])
    with Eager():
        (tf_plain if ctx.ch.chance(0.3) else tf_interp)(ctx, h, tmax)
