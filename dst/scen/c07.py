"""C07: continuous-time LQR/LQT (NumPy), block-parallel passes under arbitrary schedules."""
import sys

import numpy as np
from scipy import linalg

from ..cluster import Cluster, Patched, LevelOrder
from ..clqmodel import rand_cproblem, CRef, judge, maxdiff, scale, SUB, SLACK
from ..core import scenario

REAL = ["parallel_control.clqt_np (all passes)", "parallel_control.diffeq_np", "parallel_control.lqt_np combine operations",
        "SciPy/LAPACK kernels"]


def mod():
    return sys.modules["parallel_control.clqt_np"]


def pick_grid(ch, p, nmax=24):
    """(blocks, steps per block) with a step length the integrator can use."""
    need = max(int(np.ceil(p.T / 0.25)), 1)
    blocks = ch.pick([1, 2, 3, 4, 5, 6, 8, 9])
    steps = 1 + ch.int(6)
    while blocks * steps > nmax and steps > 1:
        steps -= 1
    if blocks * steps < need:
        p.T = p.T * blocks * steps / need
    return blocks, steps


class Refs:
    """Exact solution and same-grid model on [t0, t0 + N h]."""

    def __init__(self, p, N, h, t0):
        self.p, self.N, self.h, self.t0 = p, N, h, t0
        self.exact = CRef(p, N, h, t0, SUB)
        self.model = CRef(p, N, h, t0, 1)
        self.tb = self.exact.seq_backward()
        self.mb = self.model.seq_backward()

    def usable(self, ctx):
        S, v = self.tb["S"], self.tb["v"]
        ok = all(np.all(np.isfinite(x)) for x in S + v + self.mb["S"] + self.mb["v"]) and \
            maxdiff(self.mb["S"], S) < 0.02 * scale(S) and maxdiff(self.mb["v"], v) < 0.05 * scale(v) and scale(S) < 1e4 \
            and scale(self.tb["Kx"]) < 1e3
        if ok:
            b, C = self.fb(self.p.x0)
            mb, mC = self.fb(self.p.x0, model=True)
            ok = scale(C) < 1e4 and scale(b) < 1e4 * scale([self.p.x0]) and maxdiff(b, mb) < 0.02 * scale(b) \
                and maxdiff(C, mC) < 0.02 * scale(C)
        if not ok:
            ctx.probe("grid_too_coarse_skipped")
            ctx.event("skipped: grid too coarse")
        return ok

    def fb(self, x0, model=False, **kw):
        return (self.model if model else self.exact).fwdbwd_elements(x0, **kw)


def judge_backward(ctx, tag, out, R, model=None, lqr=False):
    m = model or R.mb
    with ctx.judging(tag):
        if lqr:
            Kx, S = out
        else:
            Kx, d, S, v = out
    judge(ctx, tag + ".S", S, R.tb["S"], m["S"], "value-matrix")
    judge(ctx, tag + ".Kx", Kx, R.tb["Kx"], m["Kx"], "gain")
    if not lqr:
        judge(ctx, tag + ".v", v, R.tb["v"], m["v"], "value-vector")
        judge(ctx, tag + ".d", d, R.tb["d"], m["d"], "offset")


def judge_held(ctx, tag, out, R, x0, Kx, d, blocks=None, zoh=False, exact_model=False, loose=1.0):
    with ctx.judging(tag):
        u, x = out
        tx, tu = R.exact.held(x0, Kx, d, zoh)
        mx, mu = R.model.held(x0, Kx, d, zoh)
        if exact_model:
            tx, tu = held_expm(R.p, R.h, x0, Kx, zoh)
            mx, mu = tx, tu
    if zoh and blocks is not None:
        # block starts come from the gain-held propagation; both readings are within the hold's error
        steps = R.N // blocks
        hx, _ = R.exact.held(x0, Kx, d, False)
        hm, _ = R.model.held(x0, Kx, d, False)
        mixx, mixu, dx, du = [], [], 0.0, 0.0
        for k in range(blocks):
            sl = slice(k * steps, (k + 1) * steps)
            a, b = R.exact.held(hx[k * steps], Kx[sl], d[sl], True, k * steps)
            c, e = R.model.held(hm[k * steps], Kx[sl], d[sl], True, k * steps)
            mixx += a[:-1]
            mixu += b
            dx, du = max(dx, maxdiff(c, a)), max(du, maxdiff(e, b))
        mixx.append(hx[-1])
        def near(got, t, m):
            got = [np.asarray(g, float) for g in got]
            return len(got) == len(t) and all(g.shape == np.shape(e) for g, e in zip(got, t)) and \
                maxdiff(got, t) <= SLACK * maxdiff(m, t) + 1e-8 * scale(t)
        if near(x, tx, mx) and near(u, tu, mu):
            ctx.probe("block_hold_exact")
        else:
            tx, tu = mixx, mixu
            judge(ctx, tag + ".x", x, tx, None, "state", extra=2 * loose * SLACK * max(dx, maxdiff(hm, hx)))
            judge(ctx, tag + ".u", u, tu, None, "control", extra=2 * loose * SLACK * du)
            return
    judge(ctx, tag + ".x", x, tx, mx, "state", extra=(loose - 1) * SLACK * maxdiff(mx, tx))
    judge(ctx, tag + ".u", u, tu, mu, "control", extra=(loose - 1) * SLACK * maxdiff(mu, tu))


def held_expm(p, h, x0, Kx, zoh):
    """Time-invariant regulator with the gains (or the controls) held over each step, by matrix exponentials."""
    n, m = p.n, p.m
    F, L = np.asarray(p.F(0), float), np.asarray(p.L(0), float)
    E = linalg.expm(h * np.block([[F, L], [np.zeros((m, n + m))]]))
    x, xs, us = np.asarray(x0, float), [np.asarray(x0, float)], []
    for K in Kx:
        u = -K @ x
        x = E[:n, :n] @ x + E[:n, n:] @ u if zoh else linalg.expm(h * (F - L @ K)) @ x
        us.append(u)
        xs.append(x)
    return xs, us


def judge_fb(ctx, tag, out, R, x0, gains, blocks=None, forward=True):
    """Forward-backward pass: exact and model combinations with the gains and value functions handed over."""
    Kx, d, S, v = gains
    steps = None if blocks is None else R.N // blocks
    with ctx.judging(tag):
        u, x = out
        tb, tC = R.fb(x0)
        tx, tu = R.exact.combined(S, v, Kx, d, tb, tC)
        mb, mC = R.fb(x0, model=True, blocks=blocks, steps=steps, forward=forward)
        mx, mu = R.model.combined(S, v, Kx, d, mb, mC)
    judge(ctx, tag + ".x", x, tx, mx, "state")
    judge(ctx, tag + ".u", u, tu, mu, "control")


def note(ctx, p, blocks, steps):
    ctx.info.update({"n": p.n, "m": p.m, "special": p.special, "blocks": blocks, "steps": steps})
    ctx.step("problem", p.n, p.m, p.special, p.vary, "B%d" % blocks, "s%d" % steps)


def build(p, cls="CLQT"):
    if cls == "CLQR":
        return mod().CLQR(p.F(0), p.L(0), p.X(0), p.U(0), p.XT, p.T)
    return mod().CLQT(p.F, p.L, p.X, p.U, p.XT, p.c, p.H, p.r, p.HT, p.rT, p.T)


def timing(ctx, p, N):
    """Explicit step and start time, or the documented defaults."""
    if p.t0 == 0.0 and ctx.ch.chance(0.5):
        return {}, p.T / N, 0.0
    h = p.T / N
    if ctx.ch.chance(0.3):
        h *= 0.6
        p.T = h * N if ctx.ch.chance(0.5) else p.T
    return dict(dt=h, t0=p.t0), h, p.t0


def body(ctx, p):
    ch = ctx.ch
    blocks, steps = pick_grid(ch, p)
    N = blocks * steps
    kw, h, t0 = timing(ctx, p, N)
    note(ctx, p, blocks, steps)
    R = Refs(p, N, h, t0)
    if not R.usable(ctx):
        return
    q = ctx.sut("CLQT", build, p)
    sb = ctx.sut("seqBackwardPass", q.seqBackwardPass, N, **kw)
    judge_backward(ctx, "seqBackwardPass", sb, R)
    fwd = ch.chance(0.5)
    pb = ctx.sut("parBackwardPass", q.parBackwardPass, blocks, steps, forward=fwd, **kw)
    judge_backward(ctx, "parBackwardPass(forward=%s)" % fwd, pb, R, R.model.par_backward(blocks, steps, fwd))
    g = sb if ch.chance(0.4) else pb
    Kx, d, S, v = g
    for name in ch.shuffle(["seqForwardPass", "parForwardPass", "seqFwdBwdPass", "parFwdBwdPass"])[:2 + ch.int(3)]:
        x0 = p.x0 if ch.chance(0.7) else p.rs.randn(p.n)
        ctx.step("call", name)
        if name == "seqForwardPass":
            z = ch.chance(0.3)
            judge_held(ctx, name, ctx.sut(name, q.seqForwardPass, x0, Kx, d, u_zoh=z, **kw), R, x0, Kx, d, zoh=z)
        elif name == "parForwardPass":
            z, f = ch.chance(0.3), ch.chance(0.6)
            out = ctx.sut(name, q.parForwardPass, x0, Kx, d, blocks, steps, forward=f, u_zoh=z, **kw)
            judge_held(ctx, "%s(forward=%s,zoh=%s)" % (name, f, z), out, R, x0, Kx, d, blocks=blocks, zoh=z)
        elif name == "seqFwdBwdPass":
            out = ctx.sut(name, q.seqFwdBwdPass, x0, N, **kw)
            with ctx.judging(name):
                A, b, C = out
            tb, tC = R.fb(x0)
            mb, mC = R.fb(x0, model=True)
            judge(ctx, name + ".b", b, tb, mb, "forward-vector")
            judge(ctx, name + ".C", C, tC, mC, "forward-matrix")
            o2 = ctx.sut("combineForwardBackward", q.combineForwardBackward, Kx, d, S, v, A, b, C)
            judge_fb(ctx, "combineForwardBackward", o2, R, x0, g)
        else:
            f = ch.chance(0.6)
            out = ctx.sut(name, q.parFwdBwdPass, x0, Kx, d, S, v, blocks, steps, forward=f, **kw)
            judge_fb(ctx, "%s(forward=%s)" % (name, f), out, R, x0, g, blocks, f)


@scenario("C07", "cluster", quick=2000, thorough=40000, chunk=15, cpu_limit=120)
def cluster(ctx):
    """Whole block-parallel solve with every scan executed by the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("associative scan execution: simulated cluster")
    p = rand_cproblem(ctx.ch)
    cl = Cluster(ctx)
    with Patched(np_scan=cl.scan):
        body(ctx, p)


@scenario("C07", "native", quick=1000, thorough=20000, chunk=15, cpu_limit=120)
def native(ctx):
    """The repository's own scan with permuted levels."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    p = rand_cproblem(ctx.ch)
    with LevelOrder(ctx):
        body(ctx, p)


def lqr_exact_riccati(p, N, h):
    """Riccati solution by the Hamiltonian flow, restarted at every step."""
    n = p.n
    G = p.L(0) @ np.linalg.solve(p.U(0), p.L(0).T)
    Hm = np.block([[p.F(0), -G], [-p.X(0), -np.asarray(p.F(0), float).T]])
    E = linalg.expm(-h * Hm)
    S = [np.asarray(p.XT, float)]
    for _ in range(N):
        CD = E @ np.vstack([np.eye(n), S[-1]])
        s = np.linalg.solve(CD[:n].T, CD[n:].T).T
        S.append(0.5 * (s + s.T))
    return S[::-1]


@scenario("C07", "lqr", quick=1500, thorough=30000, chunk=15, cpu_limit=120)
def lqr(ctx):
    """Time-invariant regulator: integrator and exact options, long horizons for the exact one."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.disc")
    ch = ctx.ch
    p = rand_cproblem(ch, lqr=True)
    blocks, steps = pick_grid(ch, p)
    N = blocks * steps
    h = p.T / N
    note(ctx, p, blocks, steps)
    native_scan = ch.chance(0.4)
    R = Refs(p, N, h, 0.0)
    if not R.usable(ctx):
        return
    q = ctx.sut("CLQR", build, p, "CLQR")
    cl = None if native_scan else Cluster(ctx)
    zeros = [np.zeros(p.m)] * N
    with (LevelOrder(ctx) if native_scan else Patched(np_scan=cl.scan)):
        sb = ctx.sut("seqBackwardPass", q.seqBackwardPass, N)
        judge_backward(ctx, "seqBackwardPass", sb, R, lqr=True)
        ex = ctx.sut("seqBackwardPass exact", q.seqBackwardPass, N, method="exact")
        Se = lqr_exact_riccati(p, N, h)
        G = np.linalg.solve(p.U(0), np.asarray(p.L(0), float).T)
        with ctx.judging("seqBackwardPass(exact)"):
            judge(ctx, "seqBackwardPass(exact).S", ex[1], Se, None, "value-matrix", floor=1e-7)
            judge(ctx, "seqBackwardPass(exact).Kx", ex[0], [G @ x for x in Se[:-1]], None, "gain", floor=1e-7)
        em = ch.pick(["rk4", "exact"])
        mp = R.model.par_backward(blocks, steps, False)
        pb = ctx.sut("parBackwardPass", q.parBackwardPass, blocks, steps, extract_method=em)
        judge_backward(ctx, "parBackwardPass(%s)" % em, pb, R, mp, lqr=True)
        Kx, S = ch.pick([sb, ex, pb])
        x0 = p.x0
        for name in ch.shuffle(["seqForwardPass", "parForwardPass", "seqFwdBwdPass", "parFwdBwdPass"])[:2 + ch.int(3)]:
            ctx.step("call", name)
            z = ch.chance(0.4)
            em = ch.pick(["rk4", "exact"])
            if name == "seqForwardPass":
                out = ctx.sut(name, q.seqForwardPass, x0, Kx, method=em, u_zoh=z)
                judge_held(ctx, "%s(%s,zoh=%s)" % (name, em, z), out, R, x0, Kx, zeros, zoh=z, exact_model=em == "exact")
            elif name == "parForwardPass":
                out = ctx.sut(name, q.parForwardPass, x0, Kx, blocks, steps, extract_method=em, u_zoh=z)
                judge_held(ctx, "%s(%s,zoh=%s)" % (name, em, z), out, R, x0, Kx, zeros, blocks=blocks, zoh=z,
                           loose=4.0 if em == "exact" else 1.0)
            else:
                v = [np.zeros(p.n)] * (N + 1)
                g = (Kx, zeros, S, v)
                if name == "seqFwdBwdPass":
                    A, b, C = ctx.sut(name, q.seqFwdBwdPass, x0, N)
                    tb, tC = R.fb(x0)
                    mb, mC = R.fb(x0, model=True)
                    judge(ctx, name + ".b", b, tb, mb, "forward-vector")
                    judge(ctx, name + ".C", C, tC, mC, "forward-matrix")
                    out = ctx.sut("combineForwardBackward", q.combineForwardBackward, Kx, S, A, b, C)
                    judge_fb(ctx, "combineForwardBackward", out, R, x0, g)
                else:
                    out = ctx.sut(name, q.parFwdBwdPass, x0, Kx, S, blocks, steps)
                    judge_fb(ctx, name, out, R, x0, g, blocks, True)
        if ch.chance(0.3):
            p.T = ch.pick([20.0, 60.0])
            N = ch.pick([20, 40])
            q = ctx.sut("CLQR", build, p, "CLQR")
            out = ctx.sut("seqBackwardPass exact", q.seqBackwardPass, N, method="exact")
            St = lqr_exact_riccati(p, N, p.T / N)
            if all(np.all(np.isfinite(s)) for s in St) and scale(St) < 1e4 and scale(St[:2]) < 1e4:
                ctx.probe("long_exact")
                judge(ctx, "seqBackwardPass(exact,long)", out[1], St, None, "value-matrix", floor=1e-6)
