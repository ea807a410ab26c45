"""C10: iterated nonlinear LQT, iterations by mixed methods under arbitrary schedules, failures and interrupts."""
import copy
import sys

import numpy as np

from ..abort import Abort, KernelFault, LineRunner
from ..cluster import Cluster, LevelOrder, Patched
from ..core import Violation, scenario
from ..lqmodel import build_lqt, compare_lists, conditioned, cost, rand_problem, reference
from ..snap import diff, snap
from ..tfutil import Eager, arrs, pick_limit

REAL = ["parallel_control.nlqt_np", "parallel_control.lqt_np", "SciPy/LAPACK kernels"]
REAL_TF = ["parallel_control.nlqt_tf", "parallel_control.lqt_tf", "TensorFlow kernels"]
TOL, TOL_LONG = 1e-9, 1e-8


class ModelError(Exception):
    """Raised by the user's model functions (injected)."""


class Smooth:
    """x+ = A x + B u + c + W tanh(P x + Q u); counts evaluations and fails at a chosen one."""

    def __init__(self, rs, n, m, strength):
        self.n, self.m = n, m
        a = rs.randn(n, n)
        self.A = a * (rs.uniform(0.4, 0.95) / max(np.linalg.norm(a, 2), 1e-3))
        self.B = rs.randn(n, m)
        self.c = 0.3 * rs.randn(n)
        k = self.k = 2
        self.W = strength * rs.randn(n, k)
        self.P = rs.randn(k, n) / np.sqrt(n)
        self.Q = 0.5 * rs.randn(k, m)
        self.calls, self.fail_at = 0, None

    def tick(self):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.fail_at = None
            raise ModelError("model evaluation failed")

    def f(self, x, u):
        self.tick()
        return self.A @ x + self.B @ u + self.c + self.W @ np.tanh(self.P @ x + self.Q @ u)

    def Fx(self, x, u):
        self.tick()
        g = 1.0 - np.tanh(self.P @ x + self.Q @ u) ** 2
        return self.A + self.W @ (g[:, None] * self.P)

    def Fu(self, x, u):
        self.tick()
        g = 1.0 - np.tanh(self.P @ x + self.Q @ u) ** 2
        return self.B + self.W @ (g[:, None] * self.Q)


class Car:
    """The repository's tracking model with injected failures; its own Jacobians are the code under test."""

    def __init__(self, mod, dt):
        self.m = mod.NonlinearModel(dt=dt)
        self.dt = dt
        self.n, self.m_dim = 4, 2
        self.calls, self.fail_at = 0, None
    tick = Smooth.tick

    def f(self, x, u):
        self.tick()
        return self.m.f(x, u)

    def Fx(self, x, u):
        self.tick()
        return self.m.Fx(x, u)

    def Fu(self, x, u):
        self.tick()
        return self.m.Fu(x, u)


def clean(model, name, x, u):
    """Reference values of the model functions, without counting or failing."""
    c, fa = model.calls, model.fail_at
    model.fail_at = None
    try:
        if isinstance(model, Car):
            th, s, dt = x[2], x[3], model.dt
            if name == "f":
                return np.array([x[0] + s * np.cos(th) * dt, x[1] + s * np.sin(th) * dt, th + u[1] * dt, s + u[0] * dt])
            if name == "Fx":
                J = np.eye(4)
                J[0, 2], J[0, 3], J[1, 2], J[1, 3] = -s * np.sin(th) * dt, np.cos(th) * dt, s * np.cos(th) * dt, np.sin(th) * dt
                return J
            J = np.zeros((4, 2))
            J[2, 1] = J[3, 0] = dt
            return J
        return getattr(model, name)(x, u)
    finally:
        model.calls, model.fail_at = c, fa


def subproblem(p, model, us, xs):
    """Linear quadratic subproblem around a trajectory."""
    q = copy.copy(p)
    q.F, q.L, q.c = list(p.F), list(p.L), list(p.c)
    for k in range(len(us)):
        x, u = np.asarray(xs[k], float), np.asarray(us[k], float)
        F, L = clean(model, "Fx", x, u), clean(model, "Fu", x, u)
        q.F[k], q.L[k], q.c[k] = F, L, clean(model, "f", x, u) - F @ x - L @ u
    q.x0 = np.asarray(xs[0], float)
    return q


def make(ctx, tmax, general=True, dims=None, T=None, np_mods=True):
    ch = ctx.ch
    if dims is None and ch.chance(0.25):
        dims = "car"
    p = rand_problem(ch, tmax=tmax, general=general, varying_r=general, T=T, nmax=4, mmax=3)
    if not general and p.flags["Z"]:
        p.flags["Z"] = False
        p.Z = [np.eye(p.m)] * p.T
    rs = p.rs
    if dims == "car":
        model = Car(sys.modules["parallel_control.nonlinear_model_np"], ch.pick([0.1, 0.05, 0.3]))
        refit(p, 4, 2)
        p.x0 = rs.randn(4)
    elif dims is not None:
        refit(p, *dims)
        model = Smooth(rs, p.n, p.m, ch.pick([0.3, 0.0, 0.8]))
    else:
        model = Smooth(rs, p.n, p.m, ch.pick([0.3, 0.0, 0.8]))
    ctx.info.update({"T": p.T, "n": p.n, "m": p.m, "special": p.special, "model": type(model).__name__})
    ctx.step("problem", p.T, p.n, p.m, p.special, type(model).__name__)
    return p, model


def refit(p, n, m):
    """Same kind of problem with given dimensions."""
    rs = p.rs
    p.n, p.m = n, m
    rd = 3 if n >= 3 else n
    T = p.T

    def spd(k, lo):
        a = rs.randn(k, k)
        return a @ a.T / k + lo * np.eye(k)
    p.H = [np.eye(rd, n) + 0.2 * rs.randn(rd, n) for _ in range(T)]
    p.X = [spd(rd, 0.1) for _ in range(T)]
    p.U = [spd(m, 0.3)] * T
    p.M = [np.zeros((rd, m))] * T
    p.Z = [np.eye(m)] * T
    p.s = [np.zeros(m)] * T
    p.r = [rs.randn(rd) for _ in range(T)]
    p.F, p.L, p.c = [np.eye(n)] * T, [np.zeros((n, m))] * T, [np.zeros(n)] * T
    p.HT, p.XT, p.rT = np.eye(rd, n), spd(rd, 0.1), rs.randn(rd)
    p.x0 = rs.randn(n)
    p.flags = dict(p.flags, M=False, s=False, Z=False)
    p.special = "refit"
    p.const_rdim = True


def start(ctx, p, model):
    """A current trajectory: arbitrary, zero or simulated."""
    ch, rs = ctx.ch, p.rs
    how = ch.pick(["zero", "random", "simulated"])
    us = [np.zeros(p.m) if how == "zero" else 0.5 * rs.randn(p.m) for _ in range(p.T)]
    x0 = np.asarray(p.x0, float)
    if np.abs(x0).max() > 10:
        x0 = x0 / np.abs(x0).max()
    xs = [x0]
    for k in range(p.T):
        xs.append(np.zeros(p.n) if how == "zero" else rs.randn(p.n) if how == "random" else clean(model, "f", xs[-1], us[k]))
    ctx.step("start", how)
    return us, xs


def failed_attempt(ctx, nlqt, model, us, xs, method):
    """One iteration that is broken off; the error must come out, the trajectory must be untouched."""
    ch = ctx.ch
    kind = ch.pick(["model", "interrupt", "memory", "kernel"])
    before = snap((us, xs))
    if kind == "model":
        model.calls = 0
        model.fail_at = 1 + ch.int(3 * len(us))
        exc = ModelError
        try:
            r = ("ok", nlqt.iterate(us, xs, method))
        except BaseException as e:
            r = ("exc", e)
        fired = model.fail_at is None
        model.fail_at = None
    elif kind == "kernel":
        c = KernelFault()
        with c:
            r = ("ok", nlqt.iterate(us, xs, method))
        if c.count == 0:
            return
        at = 1 + ch.int(c.count)
        kf = KernelFault(at, np.linalg.LinAlgError("injected"))
        exc = np.linalg.LinAlgError
        with kf:
            try:
                r = ("ok", nlqt.iterate(us, xs, method))
            except BaseException as e:
                r = ("exc", e)
        fired = kf.where is not None
    else:
        probe = LineRunner()
        probe.run(nlqt.iterate, us, xs, method)
        if probe.count == 0:
            return
        at = 1 + ch.int(probe.count)
        exc = Abort if kind == "interrupt" else MemoryError
        lr = LineRunner(at, exc("injected"))
        r = lr.run(nlqt.iterate, us, xs, method)
        fired = lr.where is not None
    if fired:
        ctx.step("failed iteration", kind, method)
        ctx.fault("iteration_aborted_" + kind)
        ctx.check(r[0] == "exc" and isinstance(r[1], exc), "error-swallowed",
                  lambda: "an injected %s failure did not reach the caller: %r" % (kind, r[1] if r[0] == "exc" else "returned"))
    d = diff(before, snap((us, xs)))
    ctx.check(d is None, "input-modified", lambda: "a failed iteration changed the trajectory it was given: %s" % d)


def history(ctx, p, model, lqt, tol, iters, faults):
    ch = ctx.ch
    nlqt = sys.modules["parallel_control.nlqt_np"].NLQT(lqt, model)
    us, xs = start(ctx, p, model)
    for it in range(iters):
        q = subproblem(p, model, us, xs)
        ref = reference(q)
        if not conditioned(ctx, q, ref):
            return None
        if faults and ch.chance(0.35):
            failed_attempt(ctx, nlqt, model, us, xs, ch.int(3))
        method = ch.int(3)
        before = snap((us, xs))
        ctx.step("iterate", method)
        out = ctx.sut("iterate%d" % method, nlqt.iterate, us, xs, *([method] if method or ch.chance(0.5) else []))
        d = diff(before, snap((us, xs)))
        ctx.check(d is None, "input-modified", lambda: "iterate changed the trajectory it was given: %s" % d)
        with ctx.judging("iterate"):
            u2, x2 = out
        compare_lists(ctx, "iterate(%d).u" % method, u2, ref.u, tol, "control")
        compare_lists(ctx, "iterate(%d).x" % method, x2, ref.x, tol, "state")
        us, xs = u2, x2
        if max(np.abs(x).max() for x in ref.x) > 1e4:
            break
    if ch.chance(0.3):
        tx = [np.asarray(xs[0], float)]
        for u in us:
            tx.append(clean(model, "f", tx[-1], np.asarray(u, float)))
        if all(np.all(np.isfinite(x)) for x in tx) and max(np.abs(x).max() for x in tx) < 1e6:
            sx = ctx.sut("simulate", nlqt.simulate, xs[0], us)
            compare_lists(ctx, "simulate", sx, tx, tol, "simulated-state")
            J = ctx.sut("cost", nlqt.cost, xs[0], us)
            e = cost(p, us, tx)
            ctx.check(abs(J - e) <= 1e-8 * (1 + abs(e)), "cost", lambda: "cost %r expected %r" % (J, e))
    return nlqt, us, xs


@scenario("C10", "cluster", quick=3000, thorough=80000, chunk=30)
def cluster(ctx):
    """NumPy iterations; every scan of every iteration is executed by the simulated cluster."""
    ctx.real.update(REAL)
    ctx.stub.add("associative scan execution: simulated cluster")
    ch = ctx.ch
    p, model = make(ctx, 7)
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p)
    with Patched(np_scan=Cluster(ctx).scan):
        history(ctx, p, model, lqt, TOL, 1 + ch.int(3), False)


@scenario("C10", "native", quick=1500, thorough=40000, chunk=30)
def native(ctx):
    """NumPy iterations with failures, interrupts and kernel faults between them; the repository's own scan."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    ch = ctx.ch
    p, model = make(ctx, ch.pick([8, 16, 30]))
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p)
    with LevelOrder(ctx):
        history(ctx, p, model, lqt, TOL_LONG, 2 + ch.int(4), True)


@scenario("C10", "converge", quick=300, thorough=6000, chunk=20)
def converge(ctx):
    """Iterations until the trajectory does not change: it must satisfy the nonlinear dynamics."""
    ctx.real.update(REAL)
    ctx.real.add("parallel_control.my_assoc_scan")
    ch = ctx.ch
    p, model = make(ctx, 8)
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p)
    nlqt = sys.modules["parallel_control.nlqt_np"].NLQT(lqt, model)
    us, xs = start(ctx, p, model)
    for it in range(40):
        if it < 2 or it % 8 == 0:
            q = subproblem(p, model, us, xs)
            if not conditioned(ctx, q):
                return
        method = ch.int(3)
        if ch.chance(0.1):
            failed_attempt(ctx, nlqt, model, us, xs, ch.int(3))
        out = ctx.sut("iterate%d" % method, nlqt.iterate, us, xs, method)
        with ctx.judging("iterate"):
            u2, x2 = out
            s = 1.0 + max(np.abs(x).max() for x in x2)
            delta = max([np.abs(a - b).max() for a, b in zip(x2, xs)] + [np.abs(a - b).max() for a, b in zip(u2, us)]) / s
        us, xs = u2, x2
        if not np.isfinite(delta) or s > 1e5:
            return
        if delta < 1e-10:
            ctx.probe("converged")
            ctx.step("converged", it)
            for k in range(p.T):
                e = np.abs(clean(model, "f", xs[k], us[k]) - xs[k + 1]).max() / s
                ctx.check(e < 1e-7, "dynamics", lambda: "step %d of the converged trajectory misses the dynamics by %.3g" % (k, e))
            sx = ctx.sut("simulate", nlqt.simulate, xs[0], us)
            compare_lists(ctx, "simulate", sx, xs, 1e-5, "simulated-state")
            return
    ctx.probe("not_converged")


# -- TensorFlow ---------------------------------------------------------------------------------------

class TfModels:
    """Model functions whose parameters live in variables, so that a traced graph serves many models."""
    made = {}

    def __init__(self, n, m):
        import tensorflow as tf
        self.v = {k: tf.Variable(tf.zeros(s, tf.float64)) for k, s in
                  dict(A=(n, n), B=(n, m), c=(n,), W=(n, 2), P=(2, n), Q=(2, m)).items()}
        v = self.v
        mv = lambda M, x: tf.einsum("ij,...j->...i", M, x)

        def f(xs, us):
            return mv(v["A"], xs) + mv(v["B"], us) + v["c"] + mv(v["W"], tf.tanh(mv(v["P"], xs) + mv(v["Q"], us)))

        def Fx(xs, us):
            g = 1.0 - tf.tanh(mv(v["P"], xs) + mv(v["Q"], us)) ** 2
            return v["A"] + tf.einsum("ik,...k,kj->...ij", v["W"], g, v["P"])

        def Fu(xs, us):
            g = 1.0 - tf.tanh(mv(v["P"], xs) + mv(v["Q"], us)) ** 2
            return v["B"] + tf.einsum("ik,...k,kj->...ij", v["W"], g, v["Q"])
        self.f = (f, Fx, Fu)

    @classmethod
    def get(cls, n, m):
        if (n, m) not in cls.made:
            cls.made[(n, m)] = cls(n, m)
        return cls.made[(n, m)]

    def load(self, model):
        for k in self.v:
            self.v[k].assign(getattr(model, k))
        return self.f


def car_functions():
    m = sys.modules["parallel_control.nonlinear_model_tf"]
    return m.nonlinear_model_f, m.nonlinear_model_Fx, m.nonlinear_model_Fu


def tf_history(ctx, p, model, iters, tol, eager, limits=None):
    import tensorflow as tf
    ch = ctx.ch
    m = sys.modules["parallel_control.nlqt_tf"]
    lt = sys.modules["parallel_control.lqt_tf"]
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, sys.modules["parallel_control.lqt_np"], p, "lists")
    t = ctx.sut("lqt_np_to_tf", lt.lqt_np_to_tf, lqt)
    with ctx.judging("lqt_np_to_tf"):
        costs = t[3:]
    f = car_functions() if isinstance(model, Car) else TfModels.get(p.n, p.m).load(model)
    un = (lambda g: g.python_function) if eager else (lambda g: g)
    us, xs = start(ctx, p, model)
    ut, xt = tf.constant(np.stack(us)), tf.constant(np.stack(xs))
    for it in range(iters):
        q = subproblem(p, model, us, xs)
        ref = reference(q)
        if not conditioned(ctx, q, ref):
            return
        name = ch.pick(["nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2"])
        kw = {}
        if name != "nlqt_iterate_seq":
            mp = ch.pick(limits) if limits else pick_limit(ch, p.T + 1)
            if mp is not None:
                kw["max_parallel"] = mp
        ctx.step("iterate", name, kw.get("max_parallel"))
        if eager and ch.chance(0.2):
            k = [1 + ch.int(3)]

            def bad(x, u):
                k[0] -= 1
                if k[0] == 0:
                    raise ModelError("injected")
                return f[0](x, u)
            try:
                un(getattr(m, name))(ut, xt, bad, f[1], f[2], *costs, **kw)
                ok = k[0] > 0
            except ModelError:
                ok = True
                ctx.fault("iteration_aborted_model")
            ctx.check(ok, "error-swallowed", "a failing model function did not reach the caller")
        out = ctx.sut(name, un(getattr(m, name)), ut, xt, *f, *costs, **kw)
        with ctx.judging(name):
            u2, x2 = out
            us, xs = arrs(u2), arrs(x2)
        compare_lists(ctx, name + ".u", us, ref.u, tol, "control")
        compare_lists(ctx, name + ".x", xs, ref.x, tol, "state")
        ut, xt = u2, x2
        if max(np.abs(x).max() for x in ref.x) > 1e4:
            return
    if ch.chance(0.4):
        tx = [np.asarray(xs[0], float)]
        for u in us:
            tx.append(clean(model, "f", tx[-1], u))
        if max(np.abs(x).max() for x in tx) < 1e6:
            sx = ctx.sut("nlqt_simulate", m.nlqt_simulate, xt[0], ut, f[0])
            compare_lists(ctx, "nlqt_simulate", arrs(sx), tx, tol, "simulated-state")
            J = float(ctx.sut("nlqt_cost", m.nlqt_cost, xt[0], ut, f[0], *costs))
            e = cost(p, us, tx)
            ctx.check(abs(J - e) <= 1e-8 * (1 + abs(e)), "cost", lambda: "cost %r expected %r" % (J, e))


@scenario("C10", "tf_cluster", quick=160, thorough=8000, chunk=20, needs=("tf",), cpu_limit=200)
def tf_cluster(ctx):
    """TensorFlow iterations executed eagerly; every combine operation is a task of the simulated cluster."""
    ctx.real.update(REAL_TF)
    ctx.stub.add("tfp.math.scan_associative: simulated cluster")
    p, model = make(ctx, 6, general=False)
    if isinstance(model, Car):
        model.dt = model.m.dt = 0.1
    with Eager(), Patched(tf_scan=Cluster(ctx).tf_scan):
        tf_history(ctx, p, model, 1 + ctx.ch.int(2), TOL, True)


@scenario("C10", "tf_eager", quick=120, thorough=6000, chunk=20, needs=("tf",), cpu_limit=200)
def tf_eager(ctx):
    """TensorFlow iterations executed eagerly with the installed scan and every parallelism limit."""
    ctx.real.update(REAL_TF)
    ctx.real.add("tfp.math.scan_associative")
    p, model = make(ctx, ctx.ch.pick([6, 12, 20]), general=False)
    if isinstance(model, Car):
        model.dt = model.m.dt = 0.1
    with Eager():
        tf_history(ctx, p, model, 1 + ctx.ch.int(3), TOL_LONG, True)


def tf_graph(i, n, m, T, quick, thorough):
    @scenario("C10", "tf_graph%d" % i, quick=quick, thorough=thorough, chunk=max(quick, 100), needs=("tf",), cpu_limit=300)
    def graph(ctx):
        """TensorFlow iterations as shipped (traced graphs), one graph serving many models and histories."""
        ctx.real.update(REAL_TF)
        ctx.real.add("tfp.math.scan_associative")
        p, model = make(ctx, T, general=False, dims="car" if n == 4 else (n, m), T=T)
        if isinstance(model, Car):
            model.dt = model.m.dt = 0.1
        from ..tfutil import smallest_limit
        with Eager(False):
            tf_history(ctx, p, model, 1 + ctx.ch.int(4), TOL_LONG, False, limits=[None, smallest_limit(T + 1)])


for _i, (_n, _m, _T, _q) in enumerate([(2, 1, 5, 40), (4, 2, 8, 40), (3, 2, 1, 40), (1, 1, 3, 0), (3, 3, 16, 0), (4, 2, 31, 0), (2, 2, 23, 0)]):
    tf_graph(_i, _n, _m, _T, _q, 1000)
