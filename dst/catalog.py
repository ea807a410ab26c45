"""Worlds of shared problem objects and the solver entry points that can be called on them.

A world holds the objects, the arguments shared by the calls (gains, value functions, trajectories, scan elements,
raw problem data) and a list of calls.  A call gets the world as its argument, so that it can also be made on a
deep copy to learn what it returns when made alone.
"""
import copy
import sys

import numpy as np

from .lqmodel import build_lqt, conditioned, rand_problem, reference
from .clqmodel import CRef, rand_cproblem, scale
from .snap import diff, same, snap


def mod(name):
    return sys.modules["parallel_control." + name]


class World:
    """roots: everything that no call may modify."""

    def __init__(self, family):
        self.family = family
        self.calls = []
        self.tol = 1e-8

    def add(self, label, f):
        self.calls.append((label, f))

    def roots(self):
        return {k: v for k, v in vars(self).items() if k not in ("family", "calls", "tol")}

    def snap(self):
        return snap(self.roots())

    def alone(self, call):
        """Result of a call made on a private copy."""
        w = copy.copy(self)
        data = copy.deepcopy(self.roots())
        vars(w).update(data)
        return call[1](w)


def changed(before, world):
    """Path of the first modification of the world, or None; attributes a call only added do not count."""
    return diff(before, world.snap(), "data", additions=False)


# ---------------------------------------------------------------------------------------------------

def lqt_world(ctx):
    ch = ctx.ch
    L = mod("lqt_np")
    plain = ch.chance(0.6)
    p = rand_problem(ch, tmax=6, general=not plain, varying_r=not plain, nmax=3, mmax=2)
    ref = reference(p)
    if not conditioned(ctx, p, ref) or max(np.abs(x).max() for x in ref.x) > 1e4:
        return None
    w = World("lqt")
    w.raw = {k: list(getattr(p, k)) for k in ("F", "L", "X", "U", "c", "H", "r", "Z", "s", "M")}
    w.term = dict(XT=p.XT, HT=p.HT, rT=p.rT)
    w.lqt = ctx.sut("checkAndExpand", build_lqt, ch, L, p)
    w.x0 = p.x0
    w.x1 = p.rs.randn(p.n)
    w.gains = ctx.sut("seqBackwardPass", w.lqt.seqBackwardPass)
    w.traj = ctx.sut("seqForwardPass", w.lqt.seqForwardPass, w.x0, w.gains[0], w.gains[1])
    w.elems = ctx.sut("parBackwardPass_init", w.lqt.parBackwardPass_init)
    w.scanned = ctx.sut("par_backward_pass_scan", L.par_backward_pass_scan, w.elems)
    w.felems = ctx.sut("parForwardPass_init", w.lqt.parForwardPass_init, w.x0, w.gains[0], w.gains[1])
    w.add("LQT.seqBackwardPass", lambda w: w.lqt.seqBackwardPass())
    w.add("LQT.parBackwardPass", lambda w: w.lqt.parBackwardPass())
    w.add("LQT.seqForwardPass", lambda w: w.lqt.seqForwardPass(w.x0, w.gains[0], w.gains[1]))
    w.add("LQT.parForwardPass", lambda w: w.lqt.parForwardPass(w.x0, w.gains[0], w.gains[1]))
    w.add("LQT.parForwardPass(x1)", lambda w: w.lqt.parForwardPass(w.x1, w.gains[0], w.gains[1]))
    w.add("LQT.parFwdBwdPass", lambda w: w.lqt.parFwdBwdPass(w.x0, *w.gains))
    w.add("LQT.parFwdBwdPass2", lambda w: w.lqt.parFwdBwdPass2(w.x1, *w.gains))
    if p.const_rdim:
        w.add("LQT.batchSolution", lambda w: w.lqt.batchSolution(w.x0))
    w.add("LQT.seqTransformedBackwardPass", lambda w: w.lqt.seqTransformedBackwardPass())
    w.add("LQT.seqSimulation", lambda w: w.lqt.seqSimulation(w.x0, w.traj[0]))
    w.add("LQT.cost", lambda w: w.lqt.cost(w.traj[0], w.traj[1]))
    w.add("par_backward_pass_scan", lambda w: mod("lqt_np").par_backward_pass_scan(w.elems))
    w.add("par_forward_pass_scan", lambda w: mod("lqt_np").par_forward_pass_scan(w.felems))
    w.add("LQT.parBackwardPass_extract", lambda w: w.lqt.parBackwardPass_extract(w.scanned))
    w.add("LQT.parBackwardPass_init", lambda w: w.lqt.parBackwardPass_init())
    w.add("LQT.checkAndExpand", lambda w: solve_new(w))
    if plain:
        C = mod("condensing_np").LQTCondenser
        w.Nc = 1 + ch.int(p.T)
        w.shared_condenser = C()
        cl = ctx.sut("condense", w.shared_condenser.condense, w.lqt, w.Nc)
        g = ctx.sut("parBackwardPass", cl.parBackwardPass)
        w.ctraj = ctx.sut("parForwardPass", cl.parForwardPass, w.x0, g[0], g[1])
        w.add("LQTCondenser", condense_all)
        w.add("LQTCondenser.convertUX", lambda w: w.shared_condenser.convertUX(*w.ctraj))
        from .scen.c10 import Smooth
        w.model = Smooth(p.rs, p.n, p.m, 0.3)
        w.model.tick = None
        w.model = Counted(w.model)
        w.nlqt = mod("nlqt_np").NLQT(w.lqt, w.model)
        w.us = [0.3 * p.rs.randn(p.m) for _ in range(p.T)]
        w.xs = [p.rs.randn(p.n) for _ in range(p.T + 1)]
        for k in range(3):
            w.add("NLQT.iterate(%d)" % k, lambda w, k=k: w.nlqt.iterate(w.us, w.xs, k))
        w.add("NLQT.iterate(traj)", lambda w: w.nlqt.iterate(w.traj[0], w.traj[1], 0))
        w.add("NLQT.simulate", lambda w: w.nlqt.simulate(w.x0, w.us))
        w.add("NLQT.cost", lambda w: w.nlqt.cost(w.x0, w.us))
    return w


class Counted:
    """Smooth model without counters: evaluations have no side effect."""

    def __init__(self, m):
        self.A, self.B, self.c, self.W, self.P, self.Q = m.A, m.B, m.c, m.W, m.P, m.Q

    def f(self, x, u):
        return self.A @ x + self.B @ u + self.c + self.W @ np.tanh(self.P @ x + self.Q @ u)

    def Fx(self, x, u):
        return self.A + self.W @ ((1.0 - np.tanh(self.P @ x + self.Q @ u) ** 2)[:, None] * self.P)

    def Fu(self, x, u):
        return self.B + self.W @ ((1.0 - np.tanh(self.P @ x + self.Q @ u) ** 2)[:, None] * self.Q)


def solve_new(w):
    q = mod("lqt_np").LQT.checkAndExpand(**w.raw, **w.term)
    return q.seqBackwardPass()


def condense_all(w):
    c = mod("condensing_np").LQTCondenser()
    cl = c.condense(w.lqt, w.Nc)
    g = cl.parBackwardPass()
    return c.convertUX(*cl.parForwardPass(w.x0, g[0], g[1]))


def lqr_world(ctx):
    from .scen.c02 import rand_lqr
    ch = ctx.ch
    p = rand_lqr(ch)
    if not conditioned(ctx, p):
        return None
    w = World("lqr")
    w.T = min(p.T, 7)
    w.lqr = mod("lqt_np").LQR(p.F[0], p.L[0], p.X[0], p.U[0], p.XT)
    w.x0 = p.x0
    w.gains = ctx.sut("LQR.seqBackwardPass", w.lqr.seqBackwardPass, w.T)
    for name in ("seqBackwardPass", "parBackwardPass"):
        w.add("LQR." + name, lambda w, name=name: getattr(w.lqr, name)(w.T))
    for name in ("seqForwardPass", "parForwardPass"):
        w.add("LQR." + name, lambda w, name=name: getattr(w.lqr, name)(w.x0, w.gains[0]))
    w.add("LQR.lqrIter", lambda w: w.lqr.lqrIter(4))
    w.add("LQR.lqrDouble", lambda w: w.lqr.lqrDouble(2))
    return w


def fsc_world(ctx):
    from .scen.c04 import build, rand_fsc
    ch = ctx.ch
    p = rand_fsc(ch, tmax=5, nmax=3, umax=3)
    w = World("fsc")
    w.raw = dict(f=list(p.f), L=list(p.L), LT=p.LT)
    w.fsc = build(ctx, p)
    w.x0 = int(p.x0)
    w.sol = ctx.sut("seqBackwardPass", w.fsc.seqBackwardPass)
    w.traj = ctx.sut("seqForwardPass", w.fsc.seqForwardPass, w.x0, w.sol[0])
    w.elems = ctx.sut("parBackwardPass_init", w.fsc.parBackwardPass_init)
    w.scanned = ctx.sut("par_backward_pass_scan", mod("fsc_np").par_backward_pass_scan, w.elems)
    w.add("FSC.seqBackwardPass", lambda w: w.fsc.seqBackwardPass())
    w.add("FSC.parBackwardPass", lambda w: w.fsc.parBackwardPass())
    w.add("FSC.seqForwardPass", lambda w: w.fsc.seqForwardPass(w.x0, w.sol[0]))
    w.add("FSC.parForwardPass", lambda w: w.fsc.parForwardPass(w.x0, w.sol[0]))
    w.add("FSC.parFwdBwdPass", lambda w: w.fsc.parFwdBwdPass(w.x0, *w.sol))
    w.add("FSC.parFwdBwdPass2", lambda w: w.fsc.parFwdBwdPass2(w.x0, *w.sol))
    w.add("FSC.seqSimulation", lambda w: w.fsc.seqSimulation(w.x0, w.traj[0]))
    w.add("FSC.cost", lambda w: w.fsc.cost(w.traj[1], w.traj[0]))
    w.add("FSC.parBackwardPass_extract", lambda w: w.fsc.parBackwardPass_extract(w.scanned))
    w.add("par_backward_pass_scan", lambda w: mod("fsc_np").par_backward_pass_scan(w.elems))
    w.add("FSC.checkAndExpand", lambda w: mod("fsc_np").FSC.checkAndExpand(**w.raw).parBackwardPass())
    if p.nu ** p.T <= 60:
        w.add("FSC.batch_solution", lambda w: w.fsc.batch_solution(w.x0))
    return w


NP_DECODERS = ["ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi"]


def viterbi_world(ctx):
    from .scen.c05 import rand_hmm
    ch = ctx.ch
    p = rand_hmm(ch, tmax=5, nmax=3)
    w = World("viterbi")
    w.v = mod("viterbi_np").Viterbi_np(p.prior, p.Pi, p.Po)
    w.data = [p.prior, p.Pi, p.Po]
    w.y = p.y
    for name in NP_DECODERS:
        w.add(name, lambda w, name=name: getattr(w.v, name)(w.y))
    w.fsc = ctx.sut("getFSC", w.v.getFSC, p.y)
    us, Vs = ctx.sut("seqBackwardPass", w.fsc.seqBackwardPass)
    w.xs = ctx.sut("seqForwardPass", w.fsc.seqForwardPass, int(np.argmin(Vs[0])), us)[1]
    w.Vs = Vs
    w.add("getFSC", lambda w: w.v.getFSC(w.y).parBackwardPass())
    w.add("fscToViterbi", lambda w: w.v.fscToViterbi(w.xs, w.Vs))
    return w


def clqt_world(ctx):
    from .scen.c07 import build
    ch = ctx.ch
    p = rand_cproblem(ch, nmax=2, mmax=2)
    p.t0 = 0.0
    blocks, steps = 1 + ch.int(4), 1 + ch.int(3)
    need = max(int(np.ceil(p.T / 0.25)), 1)
    if blocks * steps < need:
        p.T = p.T * blocks * steps / need
    b = CRef(p, blocks * steps, p.T / blocks / steps, 0.0, 1).seq_backward()
    if not all(np.all(np.isfinite(x)) for k in b for x in b[k]) or scale(b["S"]) > 1e4 or scale(b["Kx"]) > 1e3:
        ctx.probe("grid_too_coarse_skipped")
        return None
    w = World("clqt")
    w.base, w.D = p.base, p.D
    w.term = (p.HT, p.XT, p.rT)
    w.q = build(p)
    w.x0 = p.x0
    w.B, w.s, w.N = blocks, steps, blocks * steps
    w.gains = ctx.sut("seqBackwardPass", w.q.seqBackwardPass, w.N)
    w.fb = ctx.sut("seqFwdBwdPass", w.q.seqFwdBwdPass, w.x0, w.N)
    w.para = mod("parareal_clqt_np").Parareal_CLQT_np(w.q)
    w.elems = ctx.sut("parBackwardPass_init", w.q.parBackwardPass_init, blocks, steps)
    z = ch.chance(0.5)
    f = ch.chance(0.5)
    w.add("CLQT.seqBackwardPass", lambda w: w.q.seqBackwardPass(w.N))
    w.add("CLQT.parBackwardPass", lambda w: w.q.parBackwardPass(w.B, w.s, forward=f))
    w.add("CLQT.seqForwardPass", lambda w: w.q.seqForwardPass(w.x0, w.gains[0], w.gains[1], u_zoh=z))
    w.add("CLQT.parForwardPass", lambda w: w.q.parForwardPass(w.x0, w.gains[0], w.gains[1], w.B, w.s, forward=f, u_zoh=z))
    w.add("CLQT.seqFwdBwdPass", lambda w: w.q.seqFwdBwdPass(w.x0, w.N))
    w.add("CLQT.combineForwardBackward", lambda w: w.q.combineForwardBackward(*w.gains, *w.fb))
    w.add("CLQT.parFwdBwdPass", lambda w: w.q.parFwdBwdPass(w.x0, *w.gains, w.B, w.s, forward=f))
    w.add("lqt.par_backward_pass_scan", lambda w: mod("lqt_np").par_backward_pass_scan(w.elems))
    w.add("Parareal.backwardPass", lambda w: w.para.backwardPass(w.B, w.s))
    w.add("Parareal.forwardPass", lambda w: w.para.forwardPass(w.B, w.s, w.x0, w.gains[0], w.gains[1], u_zoh=z))
    w.add("Parareal.fwdBwdPass", lambda w: w.para.fwdBwdPass(w.B, w.s, w.x0))
    w.S = [w.gains[2][i * w.s] for i in range(w.B + 1)]
    w.v = [w.gains[3][i * w.s] for i in range(w.B + 1)]
    w.add("Parareal.denseBackwardPass", lambda w: w.para.denseBackwardPass(w.s, w.S, w.v))
    w.add("Parareal.coarseBackwardPass", lambda w: w.para.coarseBackwardPass(w.S, w.v, w.S, w.v))
    w.add("Parareal.finalBackwardPass", lambda w: w.para.finalBackwardPass(w.s, w.S, w.v))
    return w


def clqr_world(ctx):
    from .scen.c07 import build
    ch = ctx.ch
    p = rand_cproblem(ch, nmax=2, mmax=2, lqr=True)
    blocks, steps = 1 + ch.int(4), 1 + ch.int(3)
    need = max(int(np.ceil(p.T / 0.25)), 1)
    if blocks * steps < need:
        p.T = p.T * blocks * steps / need
    b = CRef(p, blocks * steps, p.T / blocks / steps, 0.0, 1).seq_backward()
    if not all(np.all(np.isfinite(x)) for k in b for x in b[k]) or scale(b["S"]) > 1e4 or scale(b["Kx"]) > 1e3:
        ctx.probe("grid_too_coarse_skipped")
        return None
    w = World("clqr")
    w.q = build(p, "CLQR")
    w.x0 = p.x0
    w.B, w.s, w.N = blocks, steps, blocks * steps
    w.gains = ctx.sut("seqBackwardPass", w.q.seqBackwardPass, w.N)
    w.fb = ctx.sut("seqFwdBwdPass", w.q.seqFwdBwdPass, w.x0, w.N)
    z = ch.chance(0.5)
    m1, m2 = ch.pick(["rk4", "exact"]), ch.pick(["rk4", "exact"])
    w.add("CLQR.seqBackwardPass", lambda w: w.q.seqBackwardPass(w.N, method=m1))
    w.add("CLQR.parBackwardPass", lambda w: w.q.parBackwardPass(w.B, w.s, extract_method=m2))
    w.add("CLQR.seqForwardPass", lambda w: w.q.seqForwardPass(w.x0, w.gains[0], method=m1, u_zoh=z))
    w.add("CLQR.parForwardPass", lambda w: w.q.parForwardPass(w.x0, w.gains[0], w.B, w.s, extract_method=m2, u_zoh=z))
    w.add("CLQR.seqFwdBwdPass", lambda w: w.q.seqFwdBwdPass(w.x0, w.N))
    w.add("CLQR.combineForwardBackward", lambda w: w.q.combineForwardBackward(w.gains[0], w.gains[1], *w.fb))
    w.add("CLQR.parFwdBwdPass", lambda w: w.q.parFwdBwdPass(w.x0, w.gains[0], w.gains[1], w.B, w.s, extract_method="rk4"))
    return w


def model_world(ctx):
    """The example models: simulation of data and construction of problems from shared data."""
    ch = ctx.ch
    w = World("models")
    w.seed = ch.int(1000)
    w.lin = mod("linear_model_np").LinearModel(w.seed)
    w.fin = mod("finite_model_np").FiniteModel(w.seed)
    w.ge = mod("ge_model_np").GEModel(w.seed)
    w.mass = mod("mass_model_np").MassModel(1 + ch.int(2))
    w.non = mod("nonlinear_model_np").NonlinearModel()
    w.n = 2 + ch.int(3)
    w.steps = 1 + ch.int(3)
    w.xy = ctx.sut("genData", w.lin.genData, w.n)
    w.track = ctx.sut("genData", w.fin.genData, w.n, 5)[0]
    w.xyt = ctx.sut("genData", w.non.genData, 3 * w.n, 3)[0]
    w.nl = ctx.sut("getLQT", w.non.getLQT, w.xyt, w.steps)
    w.x, w.u = np.array([0.1, 0.2, 0.3, 0.4]), np.array([0.5, -0.6])
    w.add("LinearModel.genData", lambda w: w.lin.genData(w.n))
    w.add("LinearModel.getLQT", lambda w: w.lin.getLQT(w.xy, w.steps)[0].seqBackwardPass())
    w.add("FiniteModel.genData", lambda w: w.fin.genData(w.n, 7))
    w.add("FiniteModel.getFSC", lambda w: w.fin.getFSC(w.track).seqBackwardPass())
    w.add("GEModel.genData", lambda w: w.ge.genData(w.n * 3))
    w.add("MassModel.getLQT", lambda w: first(w.mass.getLQT(0.1, 0.3)).seqBackwardPass())
    w.add("NonlinearModel.genData", lambda w: w.non.genData(3 * w.n, 3))
    w.add("NonlinearModel.getLQT", lambda w: parts(w.non.getLQT(w.xyt, w.steps)))
    w.add("NonlinearModel.initialGuess", lambda w: w.non.initialGuess(w.nl[0], w.nl[1], False))
    w.add("NonlinearModel.initialGuess0", lambda w: w.non.initialGuess(w.nl[0], w.nl[1]))
    w.add("NonlinearModel.f", lambda w: (w.non.f(w.x, w.u), w.non.Fx(w.x, w.u), w.non.Fu(w.x, w.u)))
    return w


def hjb_world(ctx):
    """Grid solvers; only where JAX is loaded."""
    ch = ctx.ch
    h = mod("hjb_grid_1d_np")
    rs = np.random.RandomState(ch.seed())
    w = World("hjb")
    N = ch.pick([3, 5])
    w.x = np.linspace(-1.0, 1.0, N)
    w.u = np.linspace(-1.0, 1.0, 4)
    w.V = rs.rand(N, N)
    w.hjb = h.HJB_Grid_1d(hjb_f, hjb_L, hjb_LT, 1.0, 1 + ch.int(4), 1 + ch.int(2), w.x)
    w.elems = [rs.rand(N, N) for _ in range(1 + ch.int(4))]
    w.add("HJB.seqBackwardPass_assoc", lambda w: w.hjb.seqBackwardPass_assoc(w.V))
    w.add("HJB.parBackwardPass", lambda w: w.hjb.parBackwardPass(w.V))
    w.add("HJB.seqBackwardPass_symfd", lambda w: w.hjb.seqBackwardPass_symfd(w.u))
    w.add("HJB.seqBackwardPass_upwind", lambda w: w.hjb.seqBackwardPass_upwind(w.u))
    w.add("hjb.par_backward_pass_scan", lambda w: mod("hjb_grid_1d_np").par_backward_pass_scan(w.elems))
    w.add("hjb.par_backward_pass_scan_interp", lambda w: mod("hjb_grid_1d_np").par_backward_pass_scan_interp(w.elems))
    w.add("hjb.combine_V2", lambda w: mod("hjb_grid_1d_np").combine_V2(w.elems[0], w.elems[-1]))
    w.add("hjb.combine_V_interp2", lambda w: mod("hjb_grid_1d_np").combine_V_interp2(w.elems[0], w.elems[-1]))
    return w


def hjb_f(x, u):
    return x + u


def hjb_L(x, u):
    return 0.5 * x ** 2 + 0.5 * u ** 2


def hjb_LT(x):
    return x ** 2


TEXTS = ["abcabca", "cab", "aaabbb", "ac", "c acb"]


def text_world(ctx):
    ch = ctx.ch
    w = World("text")
    w.text = mod("text_model").TextModel(chars=ch.pick([" abc", "cba "]), errp=ch.pick([0.0, 0.1, 0.5]), order=1 + ch.int(2))
    w.train = ch.pick(TEXTS)
    w.ys = w.text.textToIndex(w.train)
    w.add("TextModel.textToIndex", lambda w: w.text.textToIndex(w.train))
    w.add("TextModel.indexToText", lambda w: w.text.indexToText(w.ys))
    for n in ("get1stOrderPo", "getNthOrderPo"):
        w.add("TextModel." + n, lambda w, n=n: getattr(w.text, n)())
    for n in ("get1stOrderPi", "get1stOrderPrior", "getNthOrderPi", "getNthOrderPrior"):
        w.add("TextModel." + n, lambda w, n=n: getattr(w.text, n)(w.train))
    return w


def first(r):
    return r[0] if isinstance(r, tuple) else r


def parts(r):
    return [r[0].F, r[0].L, r[0].X, r[0].r, r[1]]


FAMILIES = [("lqt", lqt_world, 5), ("clqt", clqt_world, 3), ("fsc", fsc_world, 2), ("viterbi", viterbi_world, 2),
            ("lqr", lqr_world, 1), ("clqr", clqr_world, 1), ("models", model_world, 1), ("text", text_world, 1), ("hjb", hjb_world, 0)]      # hjb only on request


def make_world(ctx, families=None):
    fams = [(f, max(wt, 1)) for (n, f, wt) in FAMILIES if (wt if families is None else n in families)]
    return ctx.ch.weighted(fams)(ctx)


REAL = ["parallel_control." + n for n in
        ("lqt_np", "fsc_np", "viterbi_np", "clqt_np", "condensing_np", "parareal_clqt_np", "nlqt_np", "my_assoc_scan",
         "linear_model_np", "finite_model_np", "ge_model_np", "mass_model_np", "nonlinear_model_np", "diffeq_np",
         "text_model")]


def judge_result(ctx, tag, world, got, exp, cls):
    with ctx.judging(tag):
        ctx.check(same(got, exp, world.tol), cls, "%s does not return what it returns when called alone" % tag)
