"""C05: Viterbi decoders against exact log-domain dynamic programming."""
import math
import sys

import numpy as np

from ..abort import LineRunner, KernelFault, Abort
from ..cluster import Cluster, Patched, LevelOrder
from ..core import scenario
from ..snap import snap, diff
from ..tfutil import Eager, arrs

INF = float("inf")
TOL = 1e-9


class Model:
    pass


def rand_hmm(ch, tmax=10, T=None, nmax=5, ymax=4):
    p = Model()
    if T is None:
        T = ch.weighted([(1, 2), (2, 1), (3, 1), (0, 7)])
        if T == 0:
            T = ch.range(4, max(tmax, 5))
    p.T = T
    p.n = 1 + ch.int(nmax)
    p.ny = 1 + ch.int(ymax)
    p.kind = ch.weighted([("dense", 3), ("zeros", 4), ("leftright", 2), ("deterministic", 1), ("ties", 3), ("tiny", 2)])
    rs = p.rs = np.random.RandomState(ch.seed())

    def rows(r, c, keep=None):
        a = rs.rand(r, c) + 0.05
        if p.kind == "ties":
            a = rs.randint(1, 3, size=(r, c)).astype(float)
            if rs.rand() < 0.5:
                a[:] = 1.0
        if p.kind == "tiny":
            a = a * 10.0 ** -(rs.rand(r, c) * 12 * (rs.rand(r, c) < 0.5))
        if p.kind == "zeros":
            z = rs.rand(r, c) < 0.5
            z[np.arange(r), rs.randint(0, c, size=r)] = False
            a[z] = 0.0
        if p.kind == "deterministic":
            a = np.zeros((r, c))
            a[np.arange(r), rs.randint(0, c, size=r)] = 1.0
        if keep is not None and p.kind == "leftright":
            a = a * keep
        return a / a.sum(axis=1, keepdims=True)
    p.Pi = rows(p.n, p.n, np.triu(np.ones((p.n, p.n))))
    p.Po = rows(p.n, p.ny)
    p.prior = rows(1, p.n)[0]
    if p.kind == "leftright":
        p.prior = np.zeros(p.n)
        p.prior[0] = 1.0
    # observations of a path of positive probability
    x = int(rs.choice(p.n, p=p.prior))
    ys = []
    for k in range(T):
        x = int(rs.choice(p.n, p=p.Pi[x]))
        ys.append(int(rs.choice(p.ny, p=p.Po[x])))
    p.y = np.array(ys, dtype=ch.pick([int, np.int32]))
    return p


def log0(v):
    return -math.log(v) if v > 0 else INF


def reference(p):
    nl_Pi = [[log0(v) for v in r] for r in p.Pi]
    nl_Po = [[log0(v) for v in r] for r in p.Po]
    V = [[log0(v) for v in p.prior]]
    for k in range(p.T):
        y = int(p.y[k])
        V.append([min(V[k][i] + nl_Pi[i][j] + nl_Po[j][y] for i in range(p.n)) for j in range(p.n)])
    B = [None] * (p.T + 1)
    B[p.T] = [0.0] * p.n
    for k in reversed(range(p.T)):
        y = int(p.y[k])
        B[k] = [min(nl_Pi[i][j] + nl_Po[j][y] + B[k + 1][j] for j in range(p.n)) for i in range(p.n)]
    p.nlPi, p.nlPo = nl_Pi, nl_Po
    p.V = V
    p.opt = min(V[-1])
    gap = 1e-7 * (1 + abs(p.opt))
    path = []
    for k in range(p.T + 1):
        near = [i for i in range(p.n) if V[k][i] + B[k][i] <= p.opt + gap]
        if len(near) != 1:
            path = None
            break
        path.append(near[0])
    p.unique = path


def nlprob(p, xs):
    c = log0(p.prior[xs[0]])
    for k in range(p.T):
        c += p.nlPi[xs[k]][xs[k + 1]] + p.nlPo[xs[k + 1]][int(p.y[k])]
    return c


def judge(ctx, p, tag, out, prob=False, sumproduct=False):
    """sumproduct: forward-backward combination, exact only for a unique maximiser."""
    with ctx.judging(tag):
        xs, Vs = out
        xs = [int(x) for x in np.asarray(xs)]
        Vs = np.asarray(Vs, float)
        ctx.check(Vs.shape == (p.T + 1, p.n), "value-shape", lambda: "%s: value functions of shape %s" % (tag, Vs.shape))
        for k in range(p.T + 1):
            for i in range(p.n):
                v = Vs[k, i]
                if prob:
                    e = math.exp(-p.V[k][i])
                    ok = abs(v - e) <= 1e-8 * (e + 1e-300)
                else:
                    e = p.V[k][i]
                    ok = v == e if math.isinf(e) else abs(v - e) <= TOL * (1 + abs(e))
                ctx.check(ok, "value", lambda: "%s: V[%d][%d] = %r, expected %r" % (tag, k, i, float(v), e))
        ctx.check(len(xs) == p.T + 1 and all(0 <= x < p.n for x in xs), "path-range", lambda: "%s: path %s" % (tag, xs))
        if p.unique is None and sumproduct:
            return
        c = nlprob(p, xs)
        ctx.check(c <= p.opt + 1e-7 * (1 + abs(p.opt)), "path-not-map",
                  lambda: "%s: path %s has -log probability %r, the maximum has %r" % (tag, xs[:30], c, p.opt))
        if p.unique is not None:
            ctx.probe("unique_path")
            ctx.check(xs == p.unique, "path-unique", lambda: "%s: %s, unique maximiser %s" % (tag, xs[:30], p.unique[:30]))


NP_DECODERS = [("ref_viterbi", True, False), ("ref_viterbi_log", False, False), ("ref_viterbi_log_v2", False, False),
               ("seqViterbi", False, False), ("parBwdFwdViterbi", False, False), ("parBwdFwdBwdViterbi", False, True)]


def note(ctx, p):
    ctx.info.update({"T": p.T, "n": p.n, "kind": p.kind})
    reference(p)
    ctx.step("hmm", p.T, p.n, p.ny, p.kind, p.unique is not None)


def decoder(p):
    return sys.modules["parallel_control.viterbi_np"].Viterbi_np(p.prior, p.Pi, p.Po)


def numpy_run(ctx, p, names=None):
    ch = ctx.ch
    v = decoder(p)
    s0 = snap([p.prior, p.Pi, p.Po, p.y])
    order = ch.shuffle(NP_DECODERS)
    for name, prob, sp in order:
        if names and name not in names:
            continue
        if name == "ref_viterbi" and p.opt > 600:
            continue          # path probabilities are not representable as floating-point numbers
        ctx.step("decode", name)
        judge(ctx, p, name, ctx.sut(name, getattr(v, name), p.y), prob, sp)
    ctx.check(snap([p.prior, p.Pi, p.Po, p.y]) == s0, "data-changed", "model or observations changed by decoding")


@scenario("C05", "cluster", quick=4000, thorough=120000, chunk=80)
def cluster(ctx):
    """All NumPy decoders with every combine operation scheduled on the simulated cluster."""
    ctx.real.update(["parallel_control.viterbi_np", "parallel_control.fsc_np"])
    ctx.stub.add("associative scan execution: simulated cluster")
    p = rand_hmm(ctx.ch)
    note(ctx, p)
    with Patched(np_scan=Cluster(ctx).scan):
        numpy_run(ctx, p)


@scenario("C05", "native", quick=2500, thorough=60000, chunk=60)
def native(ctx):
    """All NumPy decoders on the repository's scan with permuted levels."""
    ctx.real.update(["parallel_control.viterbi_np", "parallel_control.fsc_np", "parallel_control.my_assoc_scan"])
    p = rand_hmm(ctx.ch, tmax=ctx.ch.pick([10, 20, 60]))
    note(ctx, p)
    with LevelOrder(ctx):
        numpy_run(ctx, p)


@scenario("C05", "long", quick=64, thorough=1000, chunk=4)
def long(ctx):
    """Long observation sequences (path probabilities far below the floating-point range)."""
    ctx.real.update(["parallel_control.viterbi_np", "parallel_control.fsc_np", "parallel_control.my_assoc_scan"])
    p = rand_hmm(ctx.ch, T=ctx.ch.range(400, 1500), nmax=3)
    note(ctx, p)
    numpy_run(ctx, p)


@scenario("C05", "interrupt", quick=1500, thorough=40000, chunk=50)
def interrupt(ctx):
    """A decoder is broken off at a random statement or allocation; data unchanged, repeating it is correct."""
    ctx.real.update(["parallel_control.viterbi_np", "parallel_control.fsc_np", "parallel_control.my_assoc_scan"])
    ch = ctx.ch
    p = rand_hmm(ch, tmax=6, nmax=3)
    note(ctx, p)
    v = decoder(p)
    data = [p.prior, p.Pi, p.Po, p.y]
    s0 = snap(data)
    name, prob, sp = ch.pick(NP_DECODERS)
    dry = LineRunner()
    dry.run(getattr(v, name), p.y)
    for j in range(1 + ch.int(3)):
        kind = ch.pick(["interrupt", "memory"])
        at = 1 + ch.int(max(dry.count, 1))
        exc = Abort("interrupt") if kind == "interrupt" else MemoryError("simulated")
        lr = LineRunner(at, exc)
        st, res = lr.run(getattr(v, name), p.y)
        ctx.step("abort", name, kind, at, lr.where)
        if lr.where is not None:
            ctx.fault(kind)
            ctx.check(st == "exc" and isinstance(res, type(exc)), "swallowed", "%s: %s at %s did not reach the caller" % (name, kind, lr.where))
        ctx.check(snap(data) == s0, "data-changed", "%s aborted at %s changed its input" % (name, lr.where))
        judge(ctx, p, name, ctx.sut(name, getattr(v, name), p.y), prob, sp)
    # the conversion works on lists the caller owns
    fsc = ctx.sut("getFSC", v.getFSC, p.y)
    us, Vs = ctx.sut("seqBackwardPass", fsc.seqBackwardPass)
    mu, mx = ctx.sut("seqForwardPass", fsc.seqForwardPass, int(np.argmin(Vs[0])), us)
    own = [mx, Vs]
    s1 = snap(own)
    dry = LineRunner()
    st, res = dry.run(v.fscToViterbi, mx, Vs)
    ctx.check(st == "ok", "exception", "fscToViterbi raised %r" % (res,))
    judge(ctx, p, "fscToViterbi", res)
    ctx.check(snap(own) == s1, "lists-changed", "fscToViterbi changed its arguments")
    exc = MemoryError("simulated")
    if ch.chance(0.5):
        lr = LineRunner(1 + ch.int(max(dry.count, 1)), exc)
        st, res = lr.run(v.fscToViterbi, mx, Vs)
    else:
        lr = KernelFault(1 + ch.int(2), exc)
        with lr:
            st, res = LineRunner().run(v.fscToViterbi, mx, Vs)
    ctx.step("abort", "fscToViterbi", lr.where)
    if lr.where:
        ctx.fault("memory")
    d = diff(s1, snap(own))
    ctx.check(d is None, "lists-changed", "fscToViterbi aborted at %s left its arguments modified: %s" % (lr.where, d))
    judge(ctx, p, "fscToViterbi", ctx.sut("fscToViterbi", v.fscToViterbi, mx, Vs))


TF_DIRECT = [("viterbi_seq_fwbw", False), ("viterbi_par_fwbw", False), ("viterbi_seqpar_fwbw", False), ("viterbi_par_fwbwfw", True)]
TF_FSC = [("viterbi_fsc_seq_bwfw", False), ("viterbi_fsc_par_bwfw", False), ("viterbi_fsc_par_bwfwbw", True)]


def tf_run(ctx, p, fraction=1.0):
    import tensorflow as tf
    ch = ctx.ch
    m = sys.modules["parallel_control.viterbi_tf"]
    ys = tf.convert_to_tensor(p.y, dtype=tf.int32)
    pr, Pi, Po = (tf.convert_to_tensor(a, dtype=tf.float64) for a in (p.prior, p.Pi, p.Po))
    out = ctx.sut("make_viterbi_fsc", m.make_viterbi_fsc, p, p.y)
    with ctx.judging("make_viterbi_fsc"):
        fs, Ls, LT = out
    for name, sp in ch.shuffle(TF_DIRECT + TF_FSC):
        if not ch.chance(fraction):
            continue
        ctx.step("decode", name)
        args = (fs, Ls, LT) if "fsc" in name else (pr, Pi, Po, ys)
        out = ctx.sut(name, getattr(m, name), *args)
        with ctx.judging(name):
            out = [np.asarray(t) for t in out]
        judge(ctx, p, name, out, False, sp)


@scenario("C05", "tfcluster", quick=480, thorough=20000, chunk=15, needs=("tf",))
def tfcluster(ctx):
    """TensorFlow decoders, eager, on the simulated cluster."""
    ctx.real.update(["parallel_control.viterbi_tf", "parallel_control.fsc_tf", "TensorFlow kernels"])
    ctx.stub.add("tfp.math.scan_associative: simulated cluster")
    p = rand_hmm(ctx.ch, tmax=7)
    note(ctx, p)
    with Eager(), Patched(tf_scan=Cluster(ctx).tf_scan):
        tf_run(ctx, p)


@scenario("C05", "tfeager", quick=400, thorough=15000, chunk=15, needs=("tf",))
def tfeager(ctx):
    """TensorFlow decoders, eager, library scan with the decoders' own parallelism limits."""
    ctx.real.update(["parallel_control.viterbi_tf", "parallel_control.fsc_tf", "tfp.math.scan_associative", "TensorFlow kernels"])
    p = rand_hmm(ctx.ch, tmax=ctx.ch.pick([8, 20, 40]))
    note(ctx, p)
    with Eager():
        tf_run(ctx, p)


@scenario("C05", "tfgraph", quick=32, thorough=1500, chunk=4, needs=("tf",), cpu_limit=200)
def tfgraph(ctx):
    """TensorFlow decoders in graph mode."""
    ctx.real.update(["parallel_control.viterbi_tf", "parallel_control.fsc_tf", "tfp.math.scan_associative", "TensorFlow kernels"])
    ch = ctx.ch
    p = rand_hmm(ch, T=ch.weighted([(1, 2), (2, 1), (3, 1), (5, 1), (8, 1), (16, 1)]), nmax=4)
    note(ctx, p)
    with Eager(False):
        tf_run(ctx, p, 0.7)
