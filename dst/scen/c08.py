"""C08: continuous-time LQT on TensorFlow, block-parallel passes under arbitrary schedules."""
import sys

import numpy as np

from ..cluster import Cluster, Patched
from ..clqmodel import rand_cproblem, judge
from ..core import scenario
from ..tfutil import Eager, arrs, pick_limit
from .c07 import Refs, judge_backward, judge_held, judge_fb, note

REAL = ["parallel_control.clqt_tf (all passes)", "parallel_control.diffeq_tf", "parallel_control.lqt_tf combine operations",
        "TensorFlow kernels"]


def ct():
    return sys.modules["parallel_control.clqt_tf"]


def tens(a):
    import tensorflow as tf
    return tf.convert_to_tensor(np.asarray(a, float), dtype=tf.float64)


def tf_functions(p):
    """The problem's coefficient functions as TensorFlow functions of time."""
    import tensorflow as tf
    out = {}
    for k in "FLXUcHr":
        base = tens(p.base[k])
        if not p.varying[k]:
            out[k] = (lambda b: lambda t: b)(base)
        elif k in "XU":
            out[k] = (lambda b, w: lambda t: b * (1.0 + 0.5 * tf.sin(w * t)))(base, float(p.w[k]))
        else:
            out[k] = (lambda b, d, w: lambda t: b + d * tf.sin(w * t))(base, tens(p.D[k]), float(p.w[k]))
    return out


class Slots:
    """Coefficient functions whose data live in variables, so that one traced graph serves many problems."""
    made = {}

    def __init__(self, n, m, rd):
        import tensorflow as tf
        shapes = dict(F=(n, n), L=(n, m), X=(rd, rd), U=(m, m), c=(n,), H=(rd, n), r=(rd,))
        self.v, self.f = {}, {}
        for k, s in shapes.items():
            b, d, w = [tf.Variable(tf.zeros(x, tf.float64)) for x in (s, s, ())]
            self.v[k] = (b, d, w)
            self.f[k] = (lambda b, d, w: lambda t: b + d * tf.sin(w * t))(b, d, w)

    @classmethod
    def get(cls, n, m, rd):
        if (n, m, rd) not in cls.made:
            cls.made[(n, m, rd)] = cls(n, m, rd)
        return cls.made[(n, m, rd)]

    def load(self, p):
        for k, (b, d, w) in self.v.items():
            base = np.asarray(p.base[k], float)
            b.assign(base)
            if not p.varying[k]:
                d.assign(np.zeros_like(base))
            else:
                d.assign(0.5 * base if k in "XU" else p.D[k])
            w.assign(p.w[k])
        return self.f


def outer(fn, eager):
    """The untraced outer function: its scan is then a call the simulator can schedule."""
    return getattr(fn, "python_function", fn) if eager else fn


def opt(mp):
    return {} if mp is None else {"max_parallel": mp}


def back(out):
    """(Ss, vs, Kxs, ds) -> the NumPy order, as lists."""
    S, v, K, d = [arrs(x) for x in out]
    return K, d, S, v


def body(ctx, p, blocks, steps, few=False, f=None, sched=False, limits=None):
    ch = ctx.ch
    N = blocks * steps
    T = p.T
    h, t0 = T / N, p.t0
    note(ctx, p, blocks, steps)
    R = Refs(p, N, h, t0)
    if not R.usable(ctx):
        return
    m = ct()
    f = tf_functions(p) if f is None else f.load(p)
    pick = (lambda n: ch.pick(limits)) if limits else (lambda n: pick_limit(ch, n))
    dyn = [f[k] for k in "FLc"]
    allf = [f[k] for k in "FLXUcHr"]
    ST = tens(p.HT.T @ p.XT @ p.HT)
    vT = tens(p.HT.T @ p.XT @ p.rT)
    dt, t0t = tens(h), tens(t0)
    if t0 == 0.0 and ch.chance(0.5):
        o = ctx.sut("defaults", m.par_backwardpass_defaults, blocks, steps, tens(p.XT), tens(p.HT), tens(p.rT), tens(T))
        with ctx.judging("defaults"):
            dt, t0t, ST, vT = o
    sb = None
    if not few or ch.chance(0.4):
        sb = ctx.sut("clqt_seq_backwardpass", m.clqt_seq_backwardpass, N, dt, t0t, ST, vT, *allf)
        with ctx.judging("clqt_seq_backwardpass"):
            judge_backward(ctx, "clqt_seq_backwardpass", back(sb), R)
    fwd = ch.chance(0.5)
    mp = pick(blocks + 1)
    ctx.step("limit", mp)
    pb = ctx.sut("clqt_par_backwardpass", outer(m.clqt_par_backwardpass, sched), blocks, steps, dt, t0t, ST, vT, *allf, forward=fwd, **opt(mp))
    with ctx.judging("clqt_par_backwardpass"):
        judge_backward(ctx, "clqt_par_backwardpass(forward=%s)" % fwd, back(pb), R, R.model.par_backward(blocks, steps, fwd))
    g = sb if sb is not None and ch.chance(0.4) else pb
    Kn, dn, Sn, vn = back(g)
    S, v, K, d = g
    calls = ch.shuffle(["clqt_par_forwardpass", "clqt_par_fwdbwdpass", "clqt_seq_forwardpass", "clqt_seq_fwdbwdpass"])
    for name in calls[:1 if few else 1 + ch.int(4)]:
        x0 = p.x0 if ch.chance(0.7) else p.rs.randn(p.n)
        x0t = tens(x0)
        ctx.step("call", name)
        if name == "clqt_seq_forwardpass":
            z = ch.chance(0.3)
            out = ctx.sut(name, m.clqt_seq_forwardpass, x0t, K, d, dt, t0t, *dyn, u_zoh=z)
            with ctx.judging(name):
                judge_held(ctx, name, (arrs(out[1]), arrs(out[0])), R, x0, Kn, dn, zoh=z)
        elif name == "clqt_par_forwardpass":
            z, fw = ch.chance(0.3), ch.chance(0.6)
            mp = pick(blocks + 1)
            out = ctx.sut(name, outer(m.clqt_par_forwardpass, sched), blocks, steps, x0t, K, d, dt, t0t, *dyn, forward=fw, u_zoh=z, **opt(mp))
            with ctx.judging(name):
                judge_held(ctx, "%s(forward=%s,zoh=%s)" % (name, fw, z), (arrs(out[1]), arrs(out[0])), R, x0, Kn, dn,
                           blocks=blocks, zoh=z)
        elif name == "clqt_seq_fwdbwdpass":
            A0, b0, C0 = tens(np.zeros((p.n, p.n))), x0t, tens(np.zeros((p.n, p.n)))
            if ch.chance(0.3):
                o = ctx.sut("defaults", m.clqt_seq_fwdbwdpass_defaults, x0t, N, tens(T))
                with ctx.judging("defaults"):
                    _, _, A0, b0, C0 = o
            out = ctx.sut(name, m.clqt_seq_fwdbwdpass, N, dt, t0t, A0, b0, C0, *allf)
            with ctx.judging(name):
                As, bs, Cs = out
                tb, tC = R.fb(x0)
                mb, mC = R.fb(x0, model=True)
                judge(ctx, name + ".b", arrs(bs), tb, mb, "forward-vector")
                judge(ctx, name + ".C", arrs(Cs), tC, mC, "forward-matrix")
            o2 = ctx.sut("clqt_combine_fwdbwd", m.clqt_combine_fwdbwd, K, d, S, v, As, bs, Cs)
            with ctx.judging(name):
                judge_fb(ctx, "clqt_combine_fwdbwd", (arrs(o2[1]), arrs(o2[0])), R, x0, (Kn, dn, Sn, vn))
        else:
            fw = ch.chance(0.6)
            mp = pick(blocks + 1)
            out = ctx.sut(name, outer(m.clqt_par_fwdbwdpass, sched), blocks, steps, x0t, S, v, K, d, dt, t0t, *allf, forward=fw, **opt(mp))
            with ctx.judging(name):
                judge_fb(ctx, "%s(forward=%s)" % (name, fw), (arrs(out[1]), arrs(out[0])), R, x0, (Kn, dn, Sn, vn), blocks, fw)


def grid(ch, p, nmax):
    blocks = ch.pick([1, 2, 3, 4, 5, 7, 8])
    steps = ch.pick([1, 2, 3, 4])
    while blocks * steps > nmax and steps > 1:
        steps -= 1
    need = max(int(np.ceil(p.T / 0.25)), 1)
    if blocks * steps < need:
        p.T = p.T * blocks * steps / need
    return blocks, steps


CONFIGS = [(2, 1, 2, 3, 2), (3, 2, 2, 5, 2), (2, 2, 1, 4, 3), (2, 1, 3, 8, 2), (1, 1, 2, 2, 1), (3, 1, 3, 7, 1),
           (2, 2, 2, 1, 4), (1, 1, 1, 1, 1)]
EXTRA = [(4, 2, 3, 6, 3), (2, 1, 2, 9, 2), (1, 2, 1, 16, 1), (3, 3, 4, 2, 6), (2, 1, 1, 12, 2), (5, 2, 2, 4, 4)]


def make(i, cfg, quick, thorough):
    n, m, rd, blocks, steps = cfg

    @scenario("C08", "cluster%d" % i, quick=quick, thorough=thorough, chunk=max(quick, 200), needs=("tf",), cpu_limit=300)
    def cluster(ctx):
        """Every scan task run by the simulated cluster; integration graphs traced once per shape."""
        ctx.real.update(REAL)
        ctx.stub.add("tfp.math.scan_associative: simulated cluster")
        p = rand_cproblem(ctx.ch, dims=(n, m), rd=rd)
        need = max(int(np.ceil(p.T / 0.25)), 1)
        if blocks * steps < need:
            p.T = p.T * blocks * steps / need
        cl = Cluster(ctx)
        with Eager(False), Patched(tf_scan=cl.tf_scan):
            body(ctx, p, blocks, steps, f=Slots.get(n, m, rd), sched=True)

    @scenario("C08", "native%d" % i, quick=15 if i in (0, 1, 3, 4, 7) else 0, thorough=thorough // 3, chunk=max(quick, 200), needs=("tf",), cpu_limit=300)
    def native(ctx):
        """Graph execution as shipped, with the installed scan at several parallelism limits."""
        ctx.real.update(REAL)
        ctx.real.add("tensorflow_probability scan_associative")
        from ..tfutil import smallest_limit
        p = rand_cproblem(ctx.ch, dims=(n, m), rd=rd)
        need = max(int(np.ceil(p.T / 0.25)), 1)
        if blocks * steps < need:
            p.T = p.T * blocks * steps / need
        with Eager(False):
            body(ctx, p, blocks, steps, f=Slots.get(n, m, rd), limits=[None, smallest_limit(blocks + 1)])


for _i, _c in enumerate(CONFIGS):
    make(_i, _c, 60, 1500)
for _i, _c in enumerate(EXTRA):
    make(len(CONFIGS) + _i, _c, 0, 1500)


@scenario("C08", "eager", quick=8, thorough=600, chunk=1, needs=("tf",), cpu_limit=300)
def eager(ctx):
    """Eager outer functions, any shape, the installed scan under every admissible parallelism limit."""
    ctx.real.update(REAL)
    ctx.real.add("tensorflow_probability scan_associative")
    p = rand_cproblem(ctx.ch)
    blocks, steps = grid(ctx.ch, p, 16)
    with Eager():
        body(ctx, p, blocks, steps, few=True)
