"""Random continuous-time LQT problems and a reference in homogeneous coordinates z = (x, 1).

With z' = Ft z + Lt u and running cost 1/2 (z' Q z + u' U u) the value function is 1/2 z' P z with
P = [[S, -v], [-v', .]], and the conditional value function of an interval is held by matrices (A, C, J) of
size n+1.  `truth` integrates with small sub-steps, `model` with the library's grid: the distance between the
two is the discretisation error the library is entitled to.
"""
import numpy as np

SUB = 8


class CProblem:
    pass


def rand_cproblem(ch, nmax=3, mmax=2, lqr=False, tmax=2.5, dims=None, rd=None):
    p = CProblem()
    if dims:
        n, m = dims
        p.n, p.m = n, m
    else:
        n = p.n = 1 + ch.int(nmax)
        m = p.m = 1 + ch.int(mmax)
    special = ch.weighted([("none", 8), ("Fzero", 1), ("XTzero", 1), ("Xzero", 1), ("lowrank", 1), ("int", 1),
                           ("unstable", 1), ("big", 1)])
    p.special = special
    vary = {k: (not lqr) and ch.chance(0.5) for k in "FLXUcHr"}
    p.vary = "".join(sorted(k for k in vary if vary[k]))
    p.lqr = lqr
    use_H = (not lqr) and ch.chance(0.7)
    if rd is not None:
        use_H = True
    else:
        rd = (1 + ch.int(n + 1)) if use_H else n
    p.rd = rd
    p.T = ch.pick([0.5, 1.0, 2.0, tmax])
    p.t0 = 0.0 if lqr else ch.pick([0.0, 0.0, 0.7, -1.3, 5.0])
    rs = np.random.RandomState(ch.seed())
    p.rs = rs

    def spd(k, lo):
        a = rs.randn(k, k)
        return a @ a.T / k + lo * np.eye(k)
    sc = 20.0 if special == "big" else 1.0
    F = rs.randn(n, n) * 0.7 - 0.4 * np.eye(n)
    if special == "unstable":
        F = rs.randn(n, n) * 0.5 + 0.8 * np.eye(n)
    if special == "Fzero":
        F = np.zeros((n, n))
    L = rs.randn(n, m)
    X = spd(rd, 0.1)
    if special == "lowrank":
        w = rs.randn(rd, 1)
        X = w @ w.T
    if special == "Xzero":
        X = np.zeros((rd, rd))
    U = spd(m, 0.4)
    H = rs.randn(rd, n) if use_H else np.eye(rd, n)
    c = sc * rs.randn(n)
    r = sc * rs.randn(rd)
    if lqr:
        c, r = np.zeros(n), np.zeros(rd)
    rdT = 1 + rs.randint(0, n + 1) if use_H else n
    p.HT = rs.randn(rdT, n) if use_H else np.eye(rdT, n)
    p.XT = spd(rdT, 0.1)
    if special == "XTzero":
        p.XT = np.zeros((rdT, rdT))
    p.rT = np.zeros(rdT) if lqr else sc * rs.randn(rdT)
    p.x0 = sc * rs.randn(n)
    if special == "int":
        F, c, r, H = np.round(F).astype(int), np.round(2 * c).astype(int), np.round(2 * r).astype(int), np.round(H).astype(int)
        p.x0 = np.round(3 * p.x0).astype(int)
        if lqr:
            H = np.eye(n)
    w = {k: rs.uniform(0.5, 3.0) for k in "FLXUcHr"}
    D = dict(F=0.5 * rs.randn(n, n), L=0.4 * rs.randn(n, m), c=sc * rs.randn(n), H=0.4 * rs.randn(rd, n), r=sc * rs.randn(rd))

    def fun(k, base):
        if not vary[k]:
            return lambda t: base
        if k in "XU":
            return lambda t: base * (1.0 + 0.5 * np.sin(w[k] * t))
        d = D[k]
        return lambda t: base + d * np.sin(w[k] * t)
    base = dict(F=F, L=L, X=X, U=U, c=c, H=H, r=r)
    p.base = base
    p.varying, p.w, p.D = vary, w, D
    for k in base:
        setattr(p, k, fun(k, base[k]))
    return p


# -- reference ---------------------------------------------------------------------------------------

class Coef:
    """Ft, Lt U^-1 Lt', Q and the raw matrices at time t."""

    def __init__(self, p):
        self.p = p
        self.cache = {}

    def __call__(self, t):
        key = round(t * 1e9)
        v = self.cache.get(key)
        if v is None:
            p, n = self.p, self.p.n
            Ft = np.zeros((n + 1, n + 1))
            Ft[:n, :n] = p.F(t)
            Ft[:n, n] = p.c(t)
            Lt = np.zeros((n + 1, p.m))
            Lt[:n] = p.L(t)
            E = np.zeros((p.rd, n + 1))
            E[:, :n] = p.H(t)
            E[:, n] = -np.asarray(p.r(t), float)
            Ui = np.linalg.inv(p.U(t))
            v = (Ft, Lt, Lt @ Ui @ Lt.T, E.T @ p.X(t) @ E, Ui)
            if len(self.cache) > 20000:
                self.cache.clear()
            self.cache[key] = v
        return v


def rk4(f, t, y, h):
    k1 = f(t, y)
    k2 = f(t + h / 2, y + h / 2 * k1)
    k3 = f(t + h / 2, y + h / 2 * k2)
    k4 = f(t + h, y + h * k3)
    return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def sym(P):
    return 0.5 * (P + P.T)


class CRef:
    """Grid t_k = t0 + k h, k = 0..N."""

    def __init__(self, p, N, h, t0, sub):
        self.p, self.N, self.h, self.t0, self.sub = p, N, h, t0, sub
        self.co = Coef(p)
        self.n1 = p.n + 1

    def terminal(self):
        p = self.p
        E = np.zeros((p.HT.shape[0], self.n1))
        E[:, :p.n] = p.HT
        E[:, p.n] = -np.asarray(p.rT, float)
        return E.T @ p.XT @ E

    def fine(self, f, k0, k1, y, each=None, post=None):
        """Integrates from grid point k0 to k1 (either direction); returns the values at the grid points."""
        out = [y]
        step = 1 if k1 > k0 else -1
        hh = step * self.h / self.sub
        for k in range(k0, k1, step):
            t = self.t0 + k * self.h
            for s in range(self.sub):
                y = rk4(f, t + s * hh, y, hh)
                if post:
                    y = post(y)
            out.append(y)
        return out

    def riccati(self, k0=None, k1=0, P=None):
        k0 = self.N if k0 is None else k0
        P = self.terminal() if P is None else P

        def f(t, P):
            Ft, _, G, Q, _ = self.co(t)
            return -(Ft.T @ P) - P @ Ft + P @ G @ P - Q
        out = self.fine(f, k0, k1, P, post=sym)
        return out[::-1]

    def element_fw(self, k0, k1, A=None, C=None, J=None):
        n1 = self.n1
        A = np.eye(n1) if A is None else A
        C = np.zeros((n1, n1)) if C is None else C
        J = np.zeros((n1, n1)) if J is None else J

        def f(t, y):
            Ft, _, G, Q, _ = self.co(t)
            A, C = y[0], y[1]
            CQ = C @ Q
            return np.stack([Ft @ A - CQ @ A, Ft @ C + C @ Ft.T - CQ @ C + G, A.T @ Q @ A])
        return self.fine(f, k0, k1, np.stack([A, C, J]))

    def element_bw(self, k0, k1):
        n1 = self.n1

        def f(t, y):
            Ft, _, G, Q, _ = self.co(t)
            A, C, J = y
            return np.stack([A @ G @ J - A @ Ft, -A @ G @ A.T, -Q + J @ G @ J - J @ Ft - Ft.T @ J])
        return self.fine(f, k1, k0, np.stack([np.eye(n1), np.zeros((n1, n1)), np.zeros((n1, n1))]))[-1]

    def held(self, x0, K, d, zoh, k0=0):
        """Trajectory when the gains (or the control) are held over each step."""
        p = self.p
        x = np.asarray(x0, float)
        xs, us = [x], []
        for i in range(len(K)):
            u = -K[i] @ x + d[i]
            us.append(u)
            if zoh:
                f = lambda t, x: p.F(t) @ x + p.c(t) + p.L(t) @ u
            else:
                f = lambda t, x: p.F(t) @ x + p.c(t) + p.L(t) @ (d[i] - K[i] @ x)
            x = self.fine(f, k0 + i, k0 + i + 1, x)[-1]
            xs.append(x)
        return xs, us

    # -- derived quantities ----------------------------------------------------------------------
    def gains(self, Ps):
        p, n = self.p, self.p.n
        Ks, ds = [], []
        for k in range(self.N):
            t = self.t0 + k * self.h
            G = self.co(t)[4] @ np.asarray(p.L(t), float).T
            Ks.append(G @ Ps[k][:n, :n])
            ds.append(-G @ Ps[k][:n, n])
        return Ks, ds

    def split(self, Ps):
        n = self.p.n
        return [P[:n, :n] for P in Ps], [-P[:n, n] for P in Ps]

    def seq_backward(self):
        Ps = self.riccati()
        S, v = self.split(Ps)
        K, d = self.gains(Ps)
        return dict(S=S, v=v, Kx=K, d=d)

    def par_backward(self, blocks, steps, forward):
        """Model of the block algorithm: elements, exact combination, in-block Riccati recursion."""
        els = [self.element_fw(k * steps, (k + 1) * steps)[-1] if forward else
               self.element_bw(k * steps, (k + 1) * steps) for k in range(blocks)]
        P = self.terminal()
        ends = [P]
        for A, C, J in reversed(els):
            P = sym(J + A.T @ P @ np.linalg.solve(np.eye(self.n1) + C @ P, A))
            ends.append(P)
        ends.reverse()
        Ps = [ends[0]]
        inner = []
        for k in range(blocks):
            seg = self.riccati((k + 1) * steps, k * steps, ends[k + 1])
            Ps += seg[1:]
            inner += seg[:-1]                 # the gains come from the recursion inside the block
        S, v = self.split(Ps)
        K, d = self.gains(inner)
        return dict(S=S, v=v, Kx=K, d=d)

    def init_z(self, x0):
        A = np.zeros((self.n1, self.n1))
        A[:-1, -1] = x0
        A[-1, -1] = 1.0
        return A

    def fwdbwd_elements(self, x0, blocks=None, steps=None, forward=True):
        """(b, C) on the grid: sequentially, or by blocks as the parallel algorithm does."""
        n = self.p.n
        A, C = self.init_z(x0), np.zeros((self.n1, self.n1))
        if blocks is None:
            out = self.element_fw(0, self.N, A, C)
        else:
            els = [self.element_fw(k * steps, (k + 1) * steps)[-1] if forward else
                   self.element_bw(k * steps, (k + 1) * steps) for k in range(blocks)]
            out = []
            for k in range(blocks):
                seg = self.element_fw(k * steps, (k + 1) * steps, A, C)
                out += seg[:-1]
                if k == blocks - 1:
                    out.append(seg[-1])
                eA, eC, eJ = els[k]
                M = np.linalg.solve((np.eye(self.n1) + C @ eJ).T, eA.T).T
                A, C = M @ A, sym(M @ C @ eA.T + eC)
        return [y[0][:n, n] for y in out], [y[1][:n, :n] for y in out]

    def combined(self, S, v, K, d, b, C):
        n = self.p.n
        xs = [np.linalg.solve(np.eye(n) + C[k] @ S[k], b[k] + C[k] @ v[k]) for k in range(len(S))]
        us = [-K[k] @ xs[k] + d[k] for k in range(len(K))]
        return xs, us


def maxdiff(a, b):
    return max(float(np.max(np.abs(np.asarray(x, float) - np.asarray(y, float)))) if np.size(y) else 0.0 for x, y in zip(a, b))


def scale(b):
    return 1.0 + max(float(np.max(np.abs(y))) if np.size(y) else 0.0 for y in b)


SLACK = 4.0
FLOOR = 1e-8


def judge(ctx, tag, got, truth, model, cls, extra=0.0, floor=FLOOR):
    """|got - truth| may not exceed SLACK times the discretisation error of the reference model on the same grid."""
    with ctx.judging(tag):
        got = [np.asarray(g, float) for g in got]
        ctx.check(len(got) == len(truth), "length:" + cls, lambda: "%s: %d entries, expected %d" % (tag, len(got), len(truth)))
        for k, (g, e) in enumerate(zip(got, truth)):
            if g.shape != np.shape(e):
                ctx.check(False, "shape:" + cls, "%s[%d] has shape %s, expected %s" % (tag, k, g.shape, np.shape(e)))
            if not np.all(np.isfinite(g)):
                ctx.check(False, "mismatch:" + cls, "%s[%d] is not finite" % (tag, k))
        s = scale(truth)
        de = maxdiff(model, truth) if model is not None else 0.0
        lim = SLACK * de + floor * s + extra
        errs = [float(np.max(np.abs(g - np.asarray(e, float)))) if g.size else 0.0 for g, e in zip(got, truth)]
        e = max(errs)
        if e > lim:
            k = int(np.argmax(errs))
            # exact agreement with the model of the algorithm is agreement up to the discretisation error
            ctx.check(False, "mismatch:" + cls, "%s[%d] differs from the exact solution by %.3g, allowed %.3g "
                      "(discretisation error of the grid %.3g)" % (tag, k, e, lim, de))
        ctx.check(True, cls)
        key = "maxerr:" + cls
        r = e / lim
        if r > ctx.info.get(key, 0.0):
            ctx.info[key] = r
