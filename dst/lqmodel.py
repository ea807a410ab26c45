"""Random discrete-time LQT problems and an independent reference solution (homogeneous-coordinate Riccati)."""
import numpy as np


class Problem:
    """x+ = F x + c + L u;  cost 1/2|Hx-r|_X + 1/2|Zu-s|_U + (Hx-r)'M(Zu-s), terminal 1/2|HT x - rT|_XT."""
    pass


def rand_problem(ch, tmax=12, general=True, varying_r=True, square_default=True, T=None, nmax=5, mmax=4,
                 fullrank_u=True, tiny=True):
    p = Problem()
    if T is None:
        T = ch.weighted([(1, 1), (2, 1), (3, 1), (0, 7)])
        if T == 0:
            T = ch.range(4, max(tmax, 5))
    p.T = T
    n = p.n = 1 + ch.int(nmax)
    m = p.m = 1 + ch.int(mmax)
    varying = p.varying = {k: ch.chance(0.5) for k in "FLXUcHr"}
    flags = {}
    flags["M"] = general and ch.chance(0.5)
    flags["s"] = general and ch.chance(0.5)
    flags["Z"] = general and ch.chance(0.4)
    flags["c"] = ch.chance(0.7)
    flags["r"] = ch.chance(0.8)
    flags["H"] = ch.chance(0.7)
    special = ch.weighted([("none", 8), ("Fzero", 1), ("Lzero", 1), ("XTzero", 1), ("Xzero", 1), ("Fsing", 1),
                           ("int", 1), ("big", 1), ("lowrank", 1), ("unstable", 1)])
    if special == "int" and (flags["M"] or T > 12):
        special = "none"
    p.flags, p.special = flags, special
    rs = np.random.RandomState(ch.seed())
    vary_rdim = varying_r and flags["H"] and ch.chance(0.3)
    base_rdim = n if not flags["H"] else 1 + ch.int(n + 1)
    scale = 10.0 ** rs.randint(-1, 3) if special == "big" else 1.0

    def spd(k, lo=0.3):
        a = rs.randn(k, k)
        return a @ a.T / k + lo * np.eye(k)

    def mats(k0):
        rd = base_rdim
        if vary_rdim:
            rd = 1 + rs.randint(0, n + 1)
        F = rs.randn(n, n)
        rad = max(abs(np.linalg.eigvals(F)))
        if T > 12:
            F = F * (rs.uniform(0.5, 1.05) / max(np.linalg.norm(F, 2), 1e-3))
        else:
            F = F * ((1.4 if special == "unstable" else rs.uniform(0.4, 1.1)) / max(rad, 1e-3))
        if special == "Fzero":
            F = np.zeros((n, n))
        elif special == "Fsing" and n > 0:
            F[:, rs.randint(n)] = 0.0
        L = rs.randn(n, m)
        if special == "Lzero":
            L = np.zeros((n, m))
        H = rs.randn(rd, n) if flags["H"] else np.eye(rd, n)
        U = spd(m)
        if special == "int":
            F, L, H = np.round(F).astype(int), np.round(L).astype(int), np.round(H).astype(int)
            if max(abs(np.linalg.eigvals(F))) > 1.1:
                F = np.triu(F)
                F[np.diag_indices(n)] = np.clip(np.diag(F), -1, 1)
        if flags["M"]:
            # joint PSD: X = M U^-1 M' + Y
            M = rs.randn(rd, m)
            M = M * min(1.0, 1.2 / max(np.linalg.norm(L @ np.linalg.solve(U, M.T @ H), 2), 1e-9))
            X = M @ np.linalg.solve(U, M.T)
            X = X + (spd(rd, 0.1) if special != "lowrank" else 0.0)
            X = 0.5 * (X + X.T)
        else:
            M = np.zeros((rd, m))
            X = spd(rd, 0.0 if special == "lowrank" else 0.1)
            if special == "Xzero":
                X = np.zeros((rd, rd))
            if special == "lowrank":
                w = rs.randn(rd, 1)
                X = w @ w.T
        Z = np.eye(m) + (0.2 * rs.randn(m, m) / np.sqrt(m) if flags["Z"] else 0.0)
        if flags["M"] and special != "int":
            F = F + L @ np.linalg.solve(U @ Z, M.T @ H)     # F minus this is the map of the decoupled problem
        c = scale * rs.randn(n) if flags["c"] else np.zeros(n)
        r = scale * rs.randn(rd) if flags["r"] else np.zeros(rd)
        s = scale * rs.randn(m) if flags["s"] else np.zeros(m)
        if special == "int":
            c, r = np.round(2 * c).astype(int), np.round(2 * r).astype(int)
        return dict(F=F, L=L, X=X, U=U, M=M, Z=Z, c=c, r=r, s=s, H=H)
    stages = [mats(k) for k in range(T)]
    const = stages[0]
    # couples that have to vary together
    if vary_rdim:
        for k in "XHr":
            varying[k] = True
    if flags["M"]:
        for k in "FLHXUM":
            varying[k] = varying["F"] or vary_rdim
    else:
        varying["M"] = vary_rdim
    varying["Z"] = flags["Z"] and ch.chance(0.6)

    varying["s"] = flags["s"] and ch.chance(0.6)
    # time-varying data may repeat the same objects in some pattern (switching, periodic, one exception)
    pattern = ch.weighted([("distinct", 6), ("joint", 2), ("each", 2)]) if T > 1 else "distinct"
    together = flags["M"] or vary_rdim or special == "int"
    idx = {}
    for k in ("F", "L", "X", "U", "M", "Z", "c", "r", "s", "H"):
        if pattern == "distinct":
            idx[k] = list(range(T))
        elif idx and (pattern == "joint" or (together and k not in "Zcs")):
            idx[k] = idx["F"]
        else:
            form = ch.pick(["switch", "exception", "periodic", "ends"])
            if form == "switch":
                idx[k] = [int(i) for i in rs.randint(0, min(T, 3), size=T)]
            elif form == "exception":
                idx[k] = [0] * T
                idx[k][rs.randint(T)] = T - 1
            elif form == "periodic":
                idx[k] = [i % 2 for i in range(T)]
            else:
                idx[k] = list(range(T - 1)) + [0]
    for k in ("F", "L", "X", "U", "M", "Z", "c", "r", "s", "H"):
        setattr(p, k, [stages[i][k] if varying.get(k) else const[k] for i in idx[k]])
    rdT = 1 + rs.randint(0, n + 1) if flags["H"] and rs.rand() < 0.5 else p.X[0].shape[0]
    p.HT = rs.randn(rdT, n) if flags["H"] else np.eye(rdT, n)
    p.XT = spd(rdT, 0.1)
    if special == "XTzero":
        p.XT = np.zeros((rdT, rdT))
    p.rT = scale * rs.randn(rdT) if flags["r"] else np.zeros(rdT)
    p.x0 = scale * rs.randn(n)
    if special == "int":
        p.HT = np.round(p.HT).astype(int)
        p.rT = np.round(p.rT).astype(int)
    p.rs = rs
    p.const_rdim = len({x.shape[0] for x in p.X} | {p.XT.shape[0]}) == 1
    return p


def build_lqt(ch, lqt_np, p, how=None):
    """Constructs the repository's LQT object, using defaults, constants or lists as the simulator chooses."""
    if how is None:
        how = ch.weighted([("lists", 3), ("compact", 4)])
    if how == "lists":
        return lqt_np.LQT.checkAndExpand(list(p.F), list(p.L), list(p.X), list(p.U), p.XT, list(p.c), list(p.H),
                                         list(p.r), p.HT, p.rT, list(p.Z), list(p.s), list(p.M))
    a = {}
    for k in ("F", "L", "X", "U", "c", "H", "r", "Z", "s", "M"):
        v = getattr(p, k)
        a[k] = v[0] if all(x is v[0] for x in v) else list(v)
    kw = dict(F=a["F"], L=a["L"], X=a["X"], U=a["U"], XT=p.XT, c=a["c"], H=a["H"], r=a["r"], HT=p.HT, rT=p.rT,
              Z=a["Z"], s=a["s"], M=a["M"])
    # leave out what equals the documented default
    rd = p.X[0].shape[0]

    def is_default(x, d):
        return not isinstance(x, list) and np.shape(x) == d.shape and np.array_equal(x, d)
    for k, d in (("c", np.zeros(p.n)), ("H", np.eye(rd, p.n)), ("r", np.zeros(rd)), ("HT", np.eye(rd, p.n)),
                 ("rT", np.zeros(rd)), ("Z", np.eye(p.m)), ("s", np.zeros(p.m)), ("M", np.zeros((rd, p.m)))):
        if is_default(kw[k], d) and ch.chance(0.7):
            del kw[k]
    if not any(isinstance(kw[k], list) for k in ("F", "L", "X", "U")):
        kw["T"] = p.T
    return lqt_np.LQT.checkAndExpand(**kw)


def changed_fields(ch, p):
    """New values for some of the problem data (cost references, offsets, weights, terminal cost, signs)."""
    rs = np.random.RandomState(ch.seed())
    T = p.T
    new = {}
    kinds = ["c", "r", "rT", "weights", "XT"] + (["s"] if p.flags["s"] else []) + ([] if p.flags["M"] else ["L", "U", "X"])
    for _ in range(1 + ch.int(2)):
        what = ch.pick(kinds)
        const = ch.chance(0.3)
        a = float(rs.uniform(0.5, 2.0))
        if what in ("c", "r", "s"):
            old = getattr(p, what)
            v = [np.asarray(x, float) + rs.randn(*np.shape(x)) for x in old]
            if const and len({x.shape for x in v}) == 1:
                v = [v[0]] * T
            new[what] = v
        elif what == "rT":
            new["rT"] = p.rT + rs.randn(*p.rT.shape)
        elif what == "XT":
            new["XT"] = a * p.XT
        elif what == "weights":
            for k in "XUM":
                new[k] = [a * np.asarray(x, float) for x in getattr(p, k)]
        elif what == "L":
            new["L"] = [-x for x in p.L]
        else:
            new[what] = [(a if const else float(rs.uniform(0.5, 2.0))) * x for x in getattr(p, what)]
    return new


def variant(ch, p, lqt, same_object, deep=True):
    """A problem that shares data with p: another LQT object that shares the unchanged lists, or the same object changed
    in place (new lists; if nobody else uses the lists, also new entries or new numbers in the arrays).
    Returns (problem, LQT object)."""
    import copy
    q = copy.copy(p)
    new = changed_fields(ch, p)
    how = ch.pick(["lists", "entries", "numbers"]) if same_object and deep else "lists"
    obj = lqt if same_object else copy.copy(lqt)
    for k, v in new.items():
        setattr(q, k, v)
        if how == "lists" or not isinstance(v, list):
            setattr(obj, k, list(v) if isinstance(v, list) else v)
            continue
        cur = getattr(obj, k)
        if how == "numbers" and len({id(x) for x in cur}) == len(cur) and all(np.asarray(x).dtype == float for x in cur):
            for i in range(p.T):
                cur[i][...] = v[i]
        else:
            for i in range(p.T):
                cur[i] = v[i]
    return q, obj


class Ref:
    pass


def stage_matrix(p, k):
    """Quadratic form of the stage cost in (x, u, 1), doubled."""
    H, X, Z, U, M, r, s = p.H[k], p.X[k], p.Z[k], p.U[k], p.M[k], p.r[k], p.s[k]
    n, m = p.n, p.m
    rd = H.shape[0]
    E = np.zeros((rd, n + m + 1))
    E[:, :n] = H
    E[:, -1] = -np.asarray(r, float)
    G = np.zeros((m, n + m + 1))
    G[:, n:n + m] = Z
    G[:, -1] = -np.asarray(s, float)
    C = E.T @ M @ G
    return E.T @ X @ E + G.T @ U @ G + C + C.T


def reference(p, x0=None):
    n, m, T = p.n, p.m, p.T
    ref = Ref()
    E = np.zeros((p.HT.shape[0], n + 1))
    E[:, :n] = p.HT
    E[:, n] = -np.asarray(p.rT, float)
    P = E.T @ p.XT @ E
    Ss, vs, Ks, ds, cs = [P[:n, :n]], [-P[:n, n]], [], [], [P[n, n]]
    for k in reversed(range(T)):
        Q = stage_matrix(p, k)
        Phi = np.zeros((n + 1, n + m + 1))
        Phi[:n, :n] = p.F[k]
        Phi[:n, n:n + m] = p.L[k]
        Phi[:n, -1] = p.c[k]
        Phi[n, -1] = 1.0
        Q = Q + Phi.T @ P @ Phi
        Q = 0.5 * (Q + Q.T)
        iz = list(range(n)) + [n + m]
        iu = list(range(n, n + m))
        Quu = Q[np.ix_(iu, iu)]
        Quz = Q[np.ix_(iu, iz)]
        G = -np.linalg.solve(Quu, Quz)
        P = Q[np.ix_(iz, iz)] + Quz.T @ G
        P = 0.5 * (P + P.T)
        Ks.append(-G[:, :n])
        ds.append(G[:, n])
        Ss.append(P[:n, :n])
        vs.append(-P[:n, n])
        cs.append(P[n, n])
    for a in (Ss, vs, Ks, ds, cs):
        a.reverse()
    ref.S, ref.v, ref.Kx, ref.d, ref.const = Ss, vs, Ks, ds, cs
    if x0 is None:
        x0 = p.x0
    x = np.asarray(x0, float)
    xs, us = [x], []
    for k in range(T):
        u = -Ks[k] @ x + ds[k]
        x = p.F[k] @ x + p.L[k] @ u + p.c[k]
        us.append(u)
        xs.append(x)
    ref.x, ref.u = xs, us
    ref.cost = cost(p, us, xs)
    ref.value0 = 0.5 * (xs[0] @ Ss[0] @ xs[0] - 2 * vs[0] @ xs[0] + cs[0])
    return ref


def cost(p, us, xs):
    e = p.HT @ xs[-1] - p.rT
    J = 0.5 * e @ p.XT @ e
    for k in range(p.T):
        z = np.concatenate([xs[k], us[k], [1.0]])
        J += 0.5 * z @ stage_matrix(p, k) @ z
    return J


def relerr(a, b):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    if not np.all(np.isfinite(a)):
        return float("inf")
    return float(np.max(np.abs(a - b)) / (1.0 + np.max(np.abs(b))))


def compare_lists(ctx, tag, got, exp, tol, cls):
    with ctx.judging(tag):
        ctx.check(len(got) == len(exp), "length:" + cls, lambda: "%s: %d entries, expected %d" % (tag, len(got), len(exp)))
        sc = 1.0 + max([float(np.max(np.abs(e))) if np.size(e) else 0.0 for e in exp] + [0.0])
        worst = 0.0
        for k, (g, e) in enumerate(zip(got, exp)):
            g = np.asarray(g, float)
            e = np.asarray(e, float)
            if g.shape != e.shape:
                ctx.check(False, "shape:" + cls, "%s[%d] has shape %s, expected %s" % (tag, k, g.shape, e.shape))
            if not np.all(np.isfinite(g)):
                ctx.check(False, "mismatch:" + cls, "%s[%d] is not finite" % (tag, k))
            er = float(np.max(np.abs(g - e)) / sc) if g.size else 0.0
            worst = max(worst, er)
            if er > tol:
                ctx.check(False, "mismatch:" + cls, "%s[%d] differs by %.3g (relative, tolerance %.1g)" % (tag, k, er, tol))
        ctx.check(True, cls)
        key = "maxerr:" + cls
        if worst > ctx.info.get(key, 0.0):
            ctx.info[key] = worst


def conditioned(ctx, p, ref=None):
    """False when the problem amplifies rounding so much that solutions cannot be compared at the stated
    tolerances: large value functions or gains, or strong growth of the uncontrolled (decoupled) dynamics."""
    ref = ref or reference(p)
    ok = max(np.abs(S).max() for S in ref.S) < 1e4 * (1 + max(np.abs(x).max() for x in p.X)) \
        and max(np.abs(K).max() for K in ref.Kx) < 300
    if ok:
        for start in range(p.T):
            A = np.eye(p.n)
            for k in range(start, p.T):
                A = (p.F[k] - p.L[k] @ np.linalg.solve(p.U[k] @ p.Z[k], p.M[k].T @ p.H[k])) @ A
                if np.abs(A).max() > 1e3:
                    ok = False
                    break
            if not ok:
                break
    if ok:
        # the cross-cost coupling cancels against the state map: bound that as well
        G = np.eye(p.n)
        for k in range(p.T):
            G = (p.F[k] - p.L[k] @ ref.Kx[k]) @ G
            if np.abs(G).max() > 1e3:
                ok = False
                break
    if not ok:
        ctx.probe("ill_conditioned_skipped")
        ctx.event("ill-conditioned, skipped")
    return ok


def open_loop_growth(p):
    """Largest entry of the products of the state maps over all sub-intervals."""
    g = 1.0
    for start in range(p.T):
        A = np.eye(p.n)
        for k in range(start, p.T):
            A = p.F[k] @ A
            g = max(g, float(np.abs(A).max()))
            if g > 1e12:
                return g
    return g
