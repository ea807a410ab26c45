"""Entry points of the TensorFlow modules on shared tensors."""
import sys

import numpy as np

from .lqmodel import build_lqt, conditioned, rand_problem

REAL = ["parallel_control." + n for n in ("lqt_tf", "fsc_tf", "viterbi_tf", "condensing_tf", "clqt_tf", "nlqt_tf",
                                          "hjb_grid_1d_tf", "parareal_clqt_tf")] + ["TensorFlow kernels"]


def mod(name):
    return sys.modules["parallel_control." + name]


def flat(r):
    import tensorflow as tf
    return [None if t is None else np.asarray(t) for t in tf.nest.flatten(r)]


def lqt_calls(ctx):
    import tensorflow as tf
    ch = ctx.ch
    L, C, N = mod("lqt_tf"), mod("condensing_tf"), mod("nlqt_tf")
    p = rand_problem(ch, tmax=4, general=False, varying_r=False, nmax=2, mmax=2)
    if p.special == "int" or not p.const_rdim or not conditioned(ctx, p):
        return None
    lqt = ctx.sut("checkAndExpand", build_lqt, ch, mod("lqt_np"), p, "lists")
    a = ctx.sut("lqt_np_to_tf", L.lqt_np_to_tf, lqt)
    x0 = tf.constant(np.asarray(p.x0, float))
    b = ctx.sut("lqt_seq_backwardpass", L.lqt_seq_backwardpass, *a)
    Nc = 1 + ch.int(p.T)
    us, xs = tf.constant(0.3 * p.rs.randn(p.T, p.m)), tf.constant(p.rs.randn(p.T + 1, p.n))
    A, B = tf.constant(p.F[0]), tf.constant(p.L[0])
    mv = lambda M, v: tf.einsum("ij,...j->...i", M, v)
    f = (lambda x, u: mv(A, tf.tanh(x)) + mv(B, u),
         lambda x, u: tf.einsum("ij,...j->...ij", A, 1.0 - tf.tanh(x) ** 2),
         lambda x, u: B + 0.0 * tf.reduce_sum(u, -1)[..., None, None])
    costs = a[3:]
    it = {n: (lambda g: getattr(g, "python_function", g))(getattr(N, "nlqt_iterate_" + n)) for n in ("seq", "par_1", "par_2")}
    return [
        ("lqt_tf.seq_backward", lambda: L.lqt_seq_backwardpass(*a)),
        ("lqt_tf.par_backward", lambda: L.lqt_par_backwardpass(*a)),
        ("lqt_tf.np_to_tf", lambda: L.lqt_np_to_tf(lqt)),
        ("lqt_tf.seq_forward", lambda: L.lqt_seq_forwardpass(x0, a[0], a[1], a[2], b[2], b[3])),
        ("lqt_tf.par_forward", lambda: L.lqt_par_forwardpass(x0, a[0], a[1], a[2], b[2], b[3])),
        ("condensing_tf.condense", lambda: C.condense(a[0], a[1], a[2], a[3], a[5], a[7], a[9], Nc)),
    ] + [("nlqt_tf." + n, lambda g=g: g(us, xs, *f, *costs)) for n, g in it.items()]


def fsc_calls(ctx):
    import tensorflow as tf
    from .scen.c04 import build, rand_fsc
    F = mod("fsc_tf")
    p = rand_fsc(ctx.ch, tmax=4, nmax=3, umax=2)
    fsc = build(ctx, p)
    f, L, LT = ctx.sut("fsc_np_to_tf", F.fsc_np_to_tf, fsc)
    us, Vs = ctx.sut("fsc_seq_backwardpass", F.fsc_seq_backwardpass, f, L, LT)
    x0 = tf.constant(int(p.x0), dtype=f.dtype)
    return [
        ("fsc_tf.np_to_tf", lambda: F.fsc_np_to_tf(fsc)),
        ("fsc_tf.seq_backward", lambda: F.fsc_seq_backwardpass(f, L, LT)),
        ("fsc_tf.par_backward", lambda: F.fsc_par_backwardpass(f, L, LT)),
        ("fsc_tf.seq_forward", lambda: F.fsc_seq_forwardpass(x0, f, us)),
        ("fsc_tf.par_forward", lambda: F.fsc_par_forwardpass(x0, f, us)),
        ("fsc_tf.par_fwdbwd", lambda: F.fsc_par_fwdbwdpass(x0, f, L, us, Vs)),
    ]


def viterbi_calls(ctx):
    import tensorflow as tf
    from .scen.c05 import TF_DIRECT, rand_hmm
    V = mod("viterbi_tf")
    p = rand_hmm(ctx.ch, tmax=4, nmax=3)
    args = [tf.constant(np.asarray(v)) for v in (p.prior, p.Pi, p.Po, p.y)]
    return [("viterbi_tf." + n, lambda n=n: getattr(V, n)(*args)) for n, _ in TF_DIRECT]


def clqt_calls(ctx):
    import tensorflow as tf
    from .clqmodel import CRef, rand_cproblem, scale
    from .scen.c08 import tens, tf_functions
    ch = ctx.ch
    m = mod("clqt_tf")
    p = rand_cproblem(ch, nmax=2, mmax=1)
    p.t0, p.T = 0.0, min(p.T, 0.5)
    B, s = 1 + ch.int(2), 1 + ch.int(2)
    b = CRef(p, B * s, p.T / B / s, 0.0, 1).seq_backward()
    if not all(np.all(np.isfinite(x)) for k in b for x in b[k]) or scale(b["S"]) > 1e4 or scale(b["Kx"]) > 1e3:
        return None
    f = tf_functions(p)
    allf, dyn = [f[k] for k in "FLXUcHr"], [f[k] for k in "FLc"]
    dt, t0 = tens(p.T / B / s), tens(0.0)
    ST, vT = tens(p.HT.T @ p.XT @ p.HT), tens(p.HT.T @ p.XT @ p.rT)
    x0 = tens(p.x0)
    S, v, K, d = ctx.sut("clqt_seq_backwardpass", m.clqt_seq_backwardpass, B * s, dt, t0, ST, vT, *allf)
    # the parallel passes trace graphs (vectorized_map) even in eager mode: too slow to run under a tracer
    z = tens(np.zeros((p.n, p.n)))
    fb = ctx.sut("clqt_seq_fwdbwdpass", m.clqt_seq_fwdbwdpass, B * s, dt, t0, z, x0, z, *allf)
    return [
        ("clqt_tf.seq_backward", lambda: m.clqt_seq_backwardpass(B * s, dt, t0, ST, vT, *allf)),
        ("clqt_tf.seq_forward", lambda: m.clqt_seq_forwardpass(x0, K, d, dt, t0, *dyn)),
        ("clqt_tf.combine", lambda: m.clqt_combine_fwdbwd(K, d, S, v, *fb)),
    ]


def hjb_calls(ctx):
    import tensorflow as tf
    ch = ctx.ch
    h = mod("hjb_grid_1d_tf")
    rs = np.random.RandomState(ch.seed())
    N, B = ch.pick([3, 5]), 1 + ch.int(4)
    V = tf.constant(rs.rand(N, N))
    x = tf.constant(np.linspace(-1.0, 1.0, N))
    u = tf.constant(np.linspace(-1.0, 1.0, 4))
    f, L, LT = (lambda x, u: x + u), (lambda x, u: 0.5 * x ** 2 + 0.5 * u ** 2), (lambda x: x ** 2)
    T = tf.constant(1.0, tf.float64)
    return [
        ("hjb_tf.seq_assoc", lambda: h.seq_bw_pass_assoc(LT, B, x, V)),
        ("hjb_tf.par", lambda: h.par_bw_pass(LT, B, x, V)),
        ("hjb_tf.symfd", lambda: h.seq_bw_pass_symfd(f, L, LT, T, B, 2, x, u)),
        ("hjb_tf.upwind", lambda: h.seq_bw_pass_upwind(f, L, LT, T, B, 2, x, u)),
    ]


KINDS = [("lqt", lqt_calls, 4), ("fsc", fsc_calls, 2), ("viterbi", viterbi_calls, 2), ("clqt", clqt_calls, 1), ("hjb", hjb_calls, 2)]


def tf_calls(ctx):
    """(kind, [(label, call)]) or (kind, None)."""
    kind, f = ctx.ch.weighted([((k, f), w) for k, f, w in KINDS])
    return kind, f(ctx)
