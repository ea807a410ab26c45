"""C09: parareal iterations under arbitrary block order, crashed, lost, stale and damaged block results."""
import sys

import numpy as np

from ..clqmodel import rand_cproblem, CRef, scale
from ..core import scenario
from ..snap import snap, diff
from ..tfutil import Eager, arrs
from .c08 import Slots, tens

REAL = ["parallel_control.parareal_clqt_np", "parallel_control.clqt_np sequential passes", "parallel_control.diffeq_np"]
REAL_TF = ["parallel_control.parareal_clqt_tf", "parallel_control.clqt_tf sequential passes", "TensorFlow kernels"]


# -- small executable model of parareal ---------------------------------------------------------------

class Model:
    """Fine and coarse propagators of one pass on the library's grid; states are tuples of arrays.

    `prop(fine, k, state)` carries the state over block k; index i of a list is the distance (in blocks) from
    the start of the propagation.
    """

    def __init__(self, kind, p, blocks, steps, x0=None, K=None, d=None, zoh=False):
        self.kind, self.p, self.B, self.steps = kind, p, blocks, steps
        self.fine = CRef(p, blocks * steps, p.T / blocks / steps, 0.0, 1)
        self.coarse = CRef(p, blocks, p.T / blocks, 0.0, 1)
        self.x0, self.K, self.d, self.zoh = x0, K, d, zoh

    def start(self):
        p, n = self.p, self.p.n
        if self.kind == "bw":
            P = self.fine.terminal()
            return P[:n, :n], -P[:n, n]
        if self.kind == "fw":
            return (np.asarray(self.x0, float),)
        return np.zeros((n, n)), np.asarray(self.x0, float), np.zeros((n, n))

    def prop(self, fine, i, st):
        """Over the i-th block from the start of the propagation; returns the states at the grid points."""
        n, B, s = self.p.n, self.B, self.steps
        c = self.fine if fine else self.coarse
        w = s if fine else 1
        if self.kind == "bw":
            k = B - 1 - i
            P = np.zeros((n + 1, n + 1))
            P[:n, :n] = st[0]
            P[:n, n] = P[n, :n] = -st[1]
            return [(Q[:n, :n], -Q[:n, n]) for Q in reversed(c.riccati((k + 1) * w, k * w, P))]
        if self.kind == "fw":
            sl = slice(i * s, (i + 1) * s) if fine else slice(i * s, i * s + 1)
            xs, _ = c.held(st[0], self.K[sl], self.d[sl], self.zoh, i * w)
            return [(x,) for x in xs]
        A = np.zeros((n + 1, n + 1))
        A[:n, :n], A[:n, n], A[n, n] = st[0], st[1], 1.0
        C = np.zeros((n + 1, n + 1))
        C[:n, :n] = st[2]
        ys = c.element_fw(i * w, (i + 1) * w, A, C)
        return [(y[0][:n, :n], y[0][:n, n], y[1][:n, :n]) for y in ys]

    def sequential(self):
        out = [self.start()]
        for i in range(self.B):
            out += self.prop(True, i, out[-1])[1:]
        return out

    def init(self):
        out = [self.start()]
        for i in range(self.B):
            out.append(self.prop(False, i, out[-1])[-1])
        return out, list(out)

    def iterate(self, cur, G, hit=None):
        F = [cur[0]] + [self.prop(True, i, cur[i])[-1] for i in range(self.B)]
        if hit:
            F, G = hit(F, G)
        new, Gn = [F[0]], [F[0]]
        for i in range(self.B):
            g = self.prop(False, i, new[-1])[-1]
            Gn.append(g)
            new.append(tuple(a + b - c for a, b, c in zip(g, F[i + 1], G[i + 1])))
        return new, Gn

    def final(self, cur):
        out = []
        for i in range(self.B):
            out += self.prop(True, i, cur[i])[:-1] if i < self.B - 1 else self.prop(True, i, cur[i])
        return out


def gap(a, b):
    """Largest difference between two lists of state tuples (inf when one is not finite)."""
    e = 0.0
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            d = np.max(np.abs(np.asarray(u, float) - v)) if np.size(v) else 0.0
            e = max(e, float(d) if np.isfinite(d) else np.inf)
    return e


def size(a):
    return max(scale([x[j] for x in a]) for j in range(len(a[0])))


def compare(ctx, tag, got, truth, model, cls, upto):
    """The first `upto` entries (from the start of the propagation) must be the fine sequential solution."""
    with ctx.judging(tag):
        ctx.check(len(got) == len(truth), "length:" + cls, lambda: "%s: %d entries, expected %d" % (tag, len(got), len(truth)))
        for g, t in zip(got, truth):
            for u, v in zip(g, t):
                ctx.check(np.shape(u) == np.shape(v), "shape:" + cls, lambda: "%s: %s vs %s" % (tag, np.shape(u), np.shape(v)))
        g, t, m = got[:upto], truth[:upto], model[:upto]
        me, s = gap(m, t), size(t)
        if not me < 1e-4 * s:
            ctx.probe("rounding_dominates_skipped")
            return
        e, lim = gap(g, t), 20 * me + 1e-9 * s
        ctx.check(e <= lim, "mismatch:" + cls, lambda: "%s differs from the fine sequential solution by %.3g, allowed %.3g" % (tag, e, lim))
        key = "maxerr:" + cls
        if e / lim > ctx.info.get(key, 0.0):
            ctx.info[key] = e / lim


# -- adapters: one interface over the NumPy and the TensorFlow passes ----------------------------------

class NpPass:
    """cur, G and F are kept as lists of state tuples counted from the start of the propagation."""

    def __init__(self, ctx, kind, para, clqt, blocks, steps, x0, K, d, zoh):
        self.ctx, self.kind, self.para, self.clqt, self.B, self.steps = ctx, kind, para, clqt, blocks, steps
        self.x0, self.K, self.d, self.zoh = x0, K, d, zoh
        self.z = dict(u_zoh=zoh) if zoh or ctx.ch.chance(0.5) else {}
        self.name = {"bw": "BackwardPass", "fw": "ForwardPass", "fb": "FwdBwdPass"}[kind]

    def inn(self, st):
        """State tuples to the library's argument lists (in order of time)."""
        st = st[::-1] if self.kind == "bw" else st
        return [[s[j] for s in st] for j in range(len(st[0]))]

    def out(self, lists):
        with self.ctx.judging(self.name):
            st = [tuple(np.asarray(l[i], float) for l in lists) for i in range(len(lists[0]))]
            return st[::-1] if self.kind == "bw" else st

    def call(self, stage, *a):
        fn = getattr(self.para, stage + self.name)
        return self.ctx.sut(stage + self.name, fn, *a)

    def init(self):
        if self.kind == "bw":
            r = self.call("init", self.B)
        elif self.kind == "fw":
            r = [self.ctx.sut("initForwardPass", self.para.initForwardPass, self.B, self.x0, self.K, self.d, **self.z)]
        else:
            r = self.call("init", self.B, self.x0)
        return self.out(r)

    def dense(self, cur):
        a = self.inn(cur)
        if self.kind == "fw":
            return self.out([self.ctx.sut("denseForwardPass", self.para.denseForwardPass, self.steps, a[0], self.K, self.d, **self.z)])
        return self.out(self.call("dense", self.steps, *a))

    def coarse(self, F, G):
        f, g = self.inn(F), self.inn(G)
        if self.kind == "fw":
            r = self.ctx.sut("coarseForwardPass", self.para.coarseForwardPass, f[0], g[0], self.K, self.d, **self.z)
        else:
            r = self.call("coarse", *(f + g))
        w = len(f)
        with self.ctx.judging("coarse"):
            return self.out(r[:w]), self.out(r[w:2 * w])

    def final(self, cur):
        a = self.inn(cur)
        if self.kind == "fw":
            r = self.ctx.sut("finalForwardPass", self.para.finalForwardPass, self.steps, a[0], self.K, self.d, **self.z)
        else:
            r = self.call("final", self.steps, *a)
        return self.split(r)

    def split(self, r):
        with self.ctx.judging(self.name):
            if self.kind == "bw":
                return self.out([r[2], r[3]]), (list(r[0]), list(r[1]))
            if self.kind == "fw":
                return self.out([r[1]]), (list(r[0]),)
            return self.out(r), ()

    def whole(self, niter):
        kw = {} if niter is None else {"niter": niter}
        if self.kind == "bw":
            r = self.ctx.sut("backwardPass", self.para.backwardPass, self.B, self.steps, **kw)
        elif self.kind == "fw":
            r = self.ctx.sut("forwardPass", self.para.forwardPass, self.B, self.steps, self.x0, self.K, self.d, **self.z, **kw)
        else:
            r = self.ctx.sut("fwdBwdPass", self.para.fwdBwdPass, self.B, self.steps, self.x0, **kw)
        return self.split(r)

    def sequential(self):
        N = self.B * self.steps
        if self.kind == "bw":
            r = self.ctx.sut("seqBackwardPass", self.clqt.seqBackwardPass, N)
        elif self.kind == "fw":
            r = self.ctx.sut("seqForwardPass", self.clqt.seqForwardPass, self.x0, self.K, self.d, **self.z)
        else:
            r = self.ctx.sut("seqFwdBwdPass", self.clqt.seqFwdBwdPass, self.x0, N)
        return self.split(r)


class TfPass(NpPass):
    def __init__(self, ctx, kind, p, f, blocks, steps, x0, K, d, zoh):
        self.ctx, self.kind, self.p, self.B, self.steps = ctx, kind, p, blocks, steps
        self.m = sys.modules["parallel_control.parareal_clqt_tf"]
        self.ct = sys.modules["parallel_control.clqt_tf"]
        self.f = [f[k] for k in ("FLc" if kind == "fw" else "FLXUcHr")]
        self.T = tens(p.T)
        self.term = [tens(p.XT), tens(p.HT), tens(p.rT)]
        self.x0 = tens(x0)
        if kind == "fw":
            self.K, self.d = tens(np.stack(K)), tens(np.stack(d))
        self.z = dict(u_zoh=True) if zoh else {}
        self.name = {"bw": "backwardpass", "fw": "forwardpass", "fb": "fwdbwdpass"}[kind]

    def inn(self, st):
        st = st[::-1] if self.kind == "bw" else st
        return [tens(np.stack([s[j] for s in st])) for j in range(len(st[0]))]

    def out(self, ts):
        with self.ctx.judging(self.name):
            cols = [arrs(t) for t in ts]
            st = [tuple(c[i] for c in cols) for i in range(len(cols[0]))]
            return st[::-1] if self.kind == "bw" else st

    def call(self, stage, *a):
        name = "pclqt_%s_%s" % (stage, self.name) if stage else "pclqt_" + self.name
        return self.ctx.sut(name, getattr(self.m, name), *a, *self.f, **self.z)

    def init(self):
        if self.kind == "bw":
            return self.out(self.call("init", self.B, *self.term, self.T))
        if self.kind == "fw":
            return self.out([self.call("init", self.B, self.steps, self.x0, self.T, self.K, self.d)])
        return self.out(self.call("init", self.B, self.x0, self.T))

    def dense(self, cur):
        a = self.inn(cur)
        if self.kind == "fw":
            return self.out([self.call("dense", self.steps, self.T, a[0], self.K, self.d)])
        return self.out(self.call("dense", self.steps, self.T, *a))

    def coarse(self, F, G):
        f, g = self.inn(F), self.inn(G)
        if self.kind == "fw":
            r = self.call("coarse", self.steps, self.T, f[0], g[0], self.K, self.d)
        else:
            r = self.call("coarse", self.T, *(f + g))
        w = len(f)
        with self.ctx.judging("coarse"):
            return self.out(r[:w]), self.out(r[w:2 * w])

    def final(self, cur):
        a = self.inn(cur)
        if self.kind == "fw":
            return self.split(self.call("final", self.steps, self.T, a[0], self.K, self.d))
        return self.split(self.call("final", self.steps, self.T, *a))

    def split(self, r):
        with self.ctx.judging(self.name):
            if self.kind == "bw":
                return self.out([r[0], r[1]]), (arrs(r[2]), arrs(r[3]))
            if self.kind == "fw":
                return self.out([r[0]]), (arrs(r[1]),)
            return self.out(r), ()

    def whole(self, niter):
        niter = self.B if niter is None else niter
        if self.kind == "bw":
            return self.split(self.call("", self.B, self.steps, niter, *self.term, self.T))
        if self.kind == "fw":
            return self.split(self.call("", self.B, self.steps, niter, self.x0, self.T, self.K, self.d))
        return self.split(self.call("", self.B, self.steps, niter, self.x0, self.T))

    def sequential(self):
        import tensorflow as tf
        N = self.B * self.steps
        n = self.p.n
        dt, t0 = tens(self.p.T / N), tens(0.0)
        if self.kind == "bw":
            ST, vT = tens(self.p.HT.T @ self.p.XT @ self.p.HT), tens(self.p.HT.T @ self.p.XT @ self.p.rT)
            r = self.ctx.sut("clqt_seq_backwardpass", self.ct.clqt_seq_backwardpass, N, dt, t0, ST, vT, *self.f)
        elif self.kind == "fw":
            r = self.ctx.sut("clqt_seq_forwardpass", self.ct.clqt_seq_forwardpass, self.x0, self.K, self.d, dt, t0, *self.f, **self.z)
        else:
            r = self.ctx.sut("clqt_seq_fwdbwdpass", self.ct.clqt_seq_fwdbwdpass, N, dt, t0, tens(np.zeros((n, n))), self.x0,
                             tens(np.zeros((n, n))), *self.f)
        return self.split(r)


# -- the simulated deployment --------------------------------------------------------------------------

def same_state(ctx, tag, a, b, cls):
    s = size(b)
    ctx.check(len(a) == len(b) and gap(a, b) <= 1e-11 * s or
              all(np.array_equal(u, v, equal_nan=True) for x, y in zip(a, b) for u, v in zip(x, y)), cls,
              lambda: "%s: differs by %.3g" % (tag, gap(a, b)))


def workers(ctx, P, cur):
    """The dense step carried out by workers: each block on its own, in any order, some crashed or run twice.

    A worker knows only its own block's start; whatever the other blocks hold at that time is arbitrary.
    """
    ch = ctx.ch
    rs = np.random.RandomState(ch.seed())
    F = [cur[0]] + [None] * P.B
    queue = ch.shuffle(range(P.B))
    done = set()
    while queue:
        i = queue.pop(0)
        junk = [tuple(np.asarray(a + rs.randn(*np.shape(a)) * (1.0 + np.max(np.abs(a)))) for a in s) for s in cur]
        junk = [tuple(0.5 * (a + a.T) if np.ndim(a) == 2 else a for a in s) for s in junk]
        junk[0], junk[i] = cur[0], cur[i]
        ctx.step("dense block", i)
        if ch.chance(0.12):
            ctx.step("worker crash", i)
            ctx.fault("worker_crash_restart")
            queue.append(i)
            continue
        r = P.dense(junk)
        with ctx.judging("dense"):
            res = r[i + 1]
        if i in done:
            same_state(ctx, "re-executed block %d" % i, [res], [F[i + 1]], "reexecution")
        F[i + 1] = res
        done.add(i)
        if ch.chance(0.12):
            ctx.step("duplicate", i)
            ctx.fault("duplicate_execution")
            queue.insert(ch.int(len(queue) + 1), i)
    return F


def make_hit(ctx, B, dims_like):
    """Faults of one iteration: list of (block, kind, parameters); applied equally to the model."""
    ch = ctx.ch
    hits = []
    for _ in range(1 + ch.int(3)):
        i = 1 + ch.int(B)
        kind = ch.weighted([("stale", 3), ("lost", 2), ("scaled", 2), ("noise", 2), ("swapped", 1), ("nan", 1)])
        where = ch.weighted([("F", 4), ("G", 1)])
        hits.append((i, kind, where, ch.pick([0.5, 0.0, 1.5, 0.9]), ch.seed(), 1 + ch.int(B)))
        ctx.step("fault", where, i, kind)
        ctx.fault("block_result_" + kind)

    def apply(F, G, old):
        F, G = list(F), list(G)
        for i, kind, where, fac, seed, j in hits:
            X = F if where == "F" else G
            v = X[i]
            if kind == "stale":
                v = old[i] if where == "F" else F[i]
            elif kind == "lost":
                v = tuple(np.zeros_like(a) for a in v)
            elif kind == "nan":
                v = tuple(np.full_like(a, np.nan) for a in v)
            elif kind == "scaled":
                v = tuple(a * fac for a in v)
            elif kind == "swapped":
                v = X[j]
            else:
                rs = np.random.RandomState(seed)
                v = tuple(a + 0.3 * rs.randn(*a.shape) for a in v)
                v = tuple(0.5 * (a + a.T) if a.ndim == 2 else a for a in v)
            X[i] = v
        return F, G
    return apply


def history(ctx, P, M, truth, full_workers):
    """Iterations with faults, then fault-free ones: block by block the solution must heal."""
    ch = ctx.ch
    cls = P.kind
    B = P.B
    cur = P.init()
    G = cur
    mcur, mG = M.init()
    faulty = ch.int(3) if B > 1 else ch.int(2)
    extra = 1 if faulty else 0
    oldF, moldF = cur, mcur
    for it in range(faulty + B + extra):
        ctx.step("iteration", it)
        tasks = (cur, G)
        before = snap(tasks)
        if full_workers and ch.chance(0.5 if it else 0.9):
            F = workers(ctx, P, cur)
        else:
            F = P.dense(cur)
        if ch.chance(0.1):
            ctx.step("coordinator crash before the coarse step")
            ctx.fault("coordinator_crash")
            F2 = P.dense(cur)
            same_state(ctx, "dense step after restart", F2, F, "reexecution")
        hit = make_hit(ctx, B, cur) if it < faulty else None
        trueF = F
        if hit:
            F, G = hit(F, G, oldF)
        oldF = trueF
        cur2, G2 = P.coarse(F, G)
        if not hit:
            d = diff(before, snap(tasks))
            ctx.check(d is None, "input-modified", lambda: "an iteration changed the lists handed to it: %s" % d)
        cur, G = cur2, G2
        keep = []
        mcur, mG = M.iterate(mcur, mG, (lambda a, b: (keep.append(a), hit(a, b, moldF))[1]) if hit else None)
        if keep:
            moldF = keep[0]
        good = it + 1 - faulty - extra
        if good >= 1:
            # the block starts nearest the beginning of the propagation
            st = truth[::P.steps]
            compare(ctx, "%s after %d fault-free iterations" % (P.name, good + extra), cur, st, mcur, cls + "-healed-starts",
                    min(good, B) + 1)
    out, aux = P.final(cur)
    mo = M.final(mcur)
    compare(ctx, "%s final" % P.name, out, truth, mo, cls + "-healed", len(truth))
    return out, aux


def gains(ctx, P, out, aux, M, p, blocks, steps, upto=None):
    """Gains, offsets and controls that go with the returned values."""
    h = p.T / blocks / steps
    with ctx.judging(P.name):
        if P.kind == "bw":
            K, d = aux
            seq = out[::-1]
            ctx.check(len(K) == len(d) == blocks * steps, "length:gains", "%d gains" % len(K))
            for k in range(0 if upto is None else blocks * steps + 1 - upto, blocks * steps):
                t = k * h
                W = np.linalg.solve(p.U(t), np.asarray(p.L(t), float).T)
                for got, e, nm in ((K[k], W @ seq[k][0], "gain"), (d[k], W @ seq[k][1], "offset")):
                    got = np.asarray(got, float)
                    ctx.check(got.shape == e.shape and np.allclose(got, e, rtol=1e-6, atol=1e-6 * scale([e])), "mismatch:bw-" + nm,
                              lambda: "%s: %s %d is not that of the returned value function" % (P.name, nm, k))
        elif P.kind == "fw":
            us = aux[0]
            ctx.check(len(us) == blocks * steps, "length:controls", "%d controls" % len(us))
            for k in range(blocks * steps if upto is None else upto - 1):
                e = -M.K[k] @ out[k][0] + M.d[k]
                ctx.check(np.shape(us[k]) == e.shape and np.allclose(us[k], e, rtol=1e-6, atol=1e-6 * scale([e])), "mismatch:fw-control",
                          lambda: "%s: control %d does not go with the returned state" % (P.name, k))


def problem(ctx, blocks, steps, **kw):
    p = rand_cproblem(ctx.ch, **kw)
    p.t0 = 0.0
    need = max(int(np.ceil(p.T / 0.3)), 1)
    if blocks * steps < need:
        p.T = p.T * blocks * steps / need
    ctx.info.update({"n": p.n, "m": p.m, "special": p.special, "blocks": blocks, "steps": steps})
    ctx.step("problem", p.n, p.m, p.special, p.vary, "B%d" % blocks, "s%d" % steps)
    ref = CRef(p, blocks * steps, p.T / blocks / steps, 0.0, 1)
    b = ref.seq_backward()
    fb = ref.fwdbwd_elements(p.x0)
    ok = all(np.all(np.isfinite(x)) for k in b for x in b[k]) and scale(b["S"]) < 1e5 and scale(b["Kx"]) < 1e4 and \
        all(np.all(np.isfinite(x)) for y in fb for x in y) and scale(fb[1]) < 1e5
    if not ok:
        ctx.probe("grid_too_coarse_skipped")
        ctx.event("skipped")
        return None, None
    return p, b


def passes(ctx, p, b, make, blocks, steps, kinds, full_workers, niters=None, zohs=(False, True)):
    ch = ctx.ch
    for kind in kinds:
        K, d = b["Kx"], b["d"]
        x0 = p.x0 if ch.chance(0.7) else p.rs.randn(p.n)
        zoh = kind == "fw" and ch.pick(zohs)
        ctx.step("pass", kind, zoh)
        if kind == "fw" and ch.chance(0.3):
            # any gains, not only the optimal ones
            K = [k + 0.1 * p.rs.randn(*k.shape) for k in K]
            d = [v + 0.1 * p.rs.randn(*v.shape) for v in d]
        P = make(kind, x0, K, d, zoh)
        M = Model(kind, p, blocks, steps, x0, K, d, zoh)
        data = (x0, K, d)
        before = snap(data)
        with np.errstate(all="ignore"):
            st, _ = P.sequential()
            truth = st
            ctx.check(len(truth) == blocks * steps + 1, "length:sequential", "%d entries" % len(truth))
            # as shipped, with as many iterations as blocks, or fewer
            k = ch.pick(niters or [None, blocks, blocks + 1] + list(range(1, blocks)))
            ctx.step("iterations", k)
            out, aux = P.whole(k)
            cur, G = M.init()
            for _ in range(blocks if k is None else k):
                cur, G = M.iterate(cur, G)
            upto = len(truth) if k is None or k >= blocks else k * steps + 1
            compare(ctx, "%s(niter=%s)" % (P.name, k), out, truth, M.final(cur), kind + "-whole", upto)
            gains(ctx, P, out, aux, M, p, blocks, steps, upto)
            if ch.chance(0.75):
                out, aux = history(ctx, P, M, truth, full_workers)
                gains(ctx, P, out, aux, M, p, blocks, steps)
        df = diff(before, snap(data))
        ctx.check(df is None, "input-modified", lambda: "%s changed its arguments: %s" % (P.name, df))


@scenario("C09", "numpy", quick=500, thorough=12000, chunk=25, cpu_limit=120)
def numpy(ctx):
    """NumPy parareal: fault-free, truncated and faulty histories, blocks carried out by independent workers."""
    ctx.real.update(REAL)
    ctx.stub.add("dense-step workers and coordinator: simulated")
    ch = ctx.ch
    blocks = ch.pick([1, 2, 3, 4, 5, 6, 8])
    steps = 1 + ch.int(5)
    p, b = problem(ctx, blocks, steps)
    if p is None:
        return
    cm = sys.modules["parallel_control.clqt_np"]
    para_m = sys.modules["parallel_control.parareal_clqt_np"]
    clqt = cm.CLQT(p.F, p.L, p.X, p.U, p.XT, p.c, p.H, p.r, p.HT, p.rT, p.T)
    para = para_m.Parareal_CLQT_np(clqt)
    kinds = ch.shuffle(["bw", "fw", "fb"])[:1 + ch.int(2)]
    passes(ctx, p, b, lambda kind, x0, K, d, z: NpPass(ctx, kind, para, clqt, blocks, steps, x0, K, d, z), blocks, steps, kinds, True)


CONFIGS = [(2, 1, 2, 3, 2, (2, 3)), (1, 1, 1, 2, 3, (2, 1)), (2, 2, 2, 5, 1, (5, 3)), (3, 1, 2, 1, 3, (1, 2)), (2, 1, 1, 4, 3, (4, 3))]
EXTRA = [(3, 2, 2, 6, 2, (6, 4)), (1, 2, 3, 8, 2, (8, 5)), (4, 1, 2, 3, 4, (3, 1))]


def tf_config(i, cfg, quick, thorough):
    n, m, rd, blocks, steps, niters = cfg

    @scenario("C09", "tensorflow%d" % i, quick=quick, thorough=thorough, chunk=max(quick, 150), needs=("tf",), cpu_limit=400)
    def tensorflow(ctx):
        """TensorFlow parareal (graphs traced once per shape): the same histories."""
        ctx.real.update(REAL_TF)
        ctx.stub.add("dense-step workers and coordinator: simulated")
        ch = ctx.ch
        p, b = problem(ctx, blocks, steps, dims=(n, m), rd=rd)
        if p is None:
            return
        f = Slots.get(n, m, rd).load(p)
        with Eager(False):
            if p.HT.shape[0] != rd:
                # one traced graph per shape: a square root of the terminal cost with rd rows
                p.HT, p.XT, p.rT = np.resize(p.HT, (rd, n)), p.XT[:1, :1] * np.eye(rd), np.resize(p.rT, (rd,))
                ref = CRef(p, blocks * steps, p.T / blocks / steps, 0.0, 1)
                b = ref.seq_backward()
                if not (all(np.all(np.isfinite(x)) for k in b for x in b[k]) and scale(b["S"]) < 1e5):
                    ctx.probe("grid_too_coarse_skipped")
                    return
            kinds = ch.shuffle(["bw", "fw", "fb"])[:1 + ch.int(2)]
            passes(ctx, p, b, lambda kind, x0, K, d, z: TfPass(ctx, kind, p, f, blocks, steps, x0, K, d, z), blocks, steps, kinds,
                   True, niters=list(niters))
            if ch.chance(0.4):
                combined(ctx, p, b, f, blocks, steps)


def combined(ctx, p, b, f, blocks, steps):
    """The two combined passes: states and controls of the closed loop."""
    ch = ctx.ch
    m = sys.modules["parallel_control.parareal_clqt_tf"]
    name = ch.pick(["pclqt_backwardforwardpass", "pclqt_backwardbwdfwdpass"])
    ctx.step("combined", name)
    N = blocks * steps
    ref = CRef(p, N, p.T / N, 0.0, 1)
    x0 = np.asarray(p.x0, float)
    xs, us = ctx.sut(name, getattr(m, name), blocks, steps, blocks, tens(x0), tens(p.XT), tens(p.HT), tens(p.rT), tens(p.T),
                     *[f[k] for k in "FLXUcHr"])
    Mb = Model("bw", p, blocks, steps)
    cur, G = Mb.init()
    for _ in range(blocks):
        cur, G = Mb.iterate(cur, G)
    err = gap(Mb.final(cur), Mb.sequential())
    if not err < 1e-8 * scale(b["S"]):
        ctx.probe("rounding_dominates_skipped")
        return
    with ctx.judging(name):
        if name == "pclqt_backwardforwardpass":
            ex, eu = ref.held(x0, b["Kx"], b["d"], False)
        else:
            fb, fC = ref.fwdbwd_elements(x0)
            ex, eu = ref.combined(b["S"], b["v"], b["Kx"], b["d"], fb, fC)
        for got, e, nm in ((arrs(xs), ex, "state"), (arrs(us), eu, "control")):
            ctx.check(len(got) == len(e), "length:combined", "%s: %d entries" % (nm, len(got)))
            g, s = gap([(x,) for x in got], [(x,) for x in e]), scale(e)
            ctx.check(g <= 1e-6 * s + 1e3 * err, "mismatch:combined-" + nm, lambda: "%s: %s differs by %.3g from the sequential solution" % (name, nm, g))


for _i, _c in enumerate(CONFIGS):
    tf_config(_i, _c, 50, 1200)
for _i, _c in enumerate(EXTRA):
    tf_config(len(CONFIGS) + _i, _c, 0, 1200)
