"""C01: the simulated parallel associative scan."""
import sys

import numpy as np

from ..cluster import LevelOrder
from ..core import scenario, SimFault
from ..threads import Interleaver

REAL = "parallel_control.my_assoc_scan (loop order chosen by the simulator)"


def scan_fn():
    return sys.modules["parallel_control.my_assoc_scan"].my_assoc_scan


# -- associative operations: (name, element maker(rng, i), op, equal) ------------------------------------
def eq(a, b):
    return type(a) == type(b) and a == b


def eq_np(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def eq_tup(a, b):
    return len(a) == len(b) and all(eq_np(x, y) for x, y in zip(a, b))


P = 1009


def minplus(a, b):
    return (a[:, :, None] + b[None, :, :]).min(axis=1)


OPS = {
    "concat": (lambda r, i: (i,), lambda a, b: a + b, eq),
    "string": (lambda r, i: "abcdefgh"[r.randint(8)] * r.randint(0, 3), lambda a, b: a + b, eq),
    "list": (lambda r, i: [i] * r.randint(0, 3), lambda a, b: a + b, eq),
    "addint": (lambda r, i: int(r.randint(-3, 4)), lambda a, b: a + b, eq),
    "max": (lambda r, i: int(r.randint(-9, 10)), max, eq),
    "matmod": (lambda r, i: r.randint(0, P, (2, 2)), lambda a, b: (a @ b) % P, eq_np),
    "affine": (lambda r, i: (r.randint(0, P, (2, 2)), r.randint(0, P, 2)),
               lambda f, g: ((g[0] @ f[0]) % P, (g[0] @ f[1] + g[1]) % P), eq_tup),
    "perm": (lambda r, i: tuple(int(v) for v in r.permutation(4)), lambda a, b: tuple(b[k] for k in a), eq),
    "map": (lambda r, i: tuple(int(v) for v in r.randint(0, 5, 5)), lambda a, b: tuple(b[k] for k in a), eq),
    "minplus": (lambda r, i: r.randint(0, 50, (3, 3)).astype(float), minplus, eq_np),
    "left": (lambda r, i: i, lambda a, b: a, eq),
    "right": (lambda r, i: i, lambda a, b: b, eq),
    "and": (lambda r, i: bool(r.randint(0, 2)), lambda a, b: a and b, eq),
    "scalarnp": (lambda r, i: np.array([float(r.randint(-4, 5))]), lambda a, b: a + b, eq_np),
    "rect": (lambda r, i: (i, i + 1, (i,)), lambda a, b: (a[0], b[1], a[2] + b[2]) if a[1] == b[0] else _gap(a, b), eq),
}


class Gap(Exception):
    pass


def _gap(a, b):
    raise Gap("combined non-adjacent intervals %r %r" % (a[:2], b[:2]))


def draw_len(ch):
    return ch.weighted([(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (0, 8), (-1, 2), (-2, 0.3)])


def length(ch):
    n = draw_len(ch)
    if n == 0:
        return ch.range(6, 34)
    if n == -1:
        return ch.pick([63, 64, 65, 127, 128, 129])
    if n == -2:
        return ch.range(200, 300)
    return n


def expected(op, a, reverse):
    out = []
    if not reverse:
        acc = a[0]
        out.append(acc)
        for x in a[1:]:
            acc = op(acc, x)
            out.append(acc)
    else:
        acc = a[-1]
        out.append(acc)
        for x in reversed(a[:-1]):
            acc = op(x, acc)
            out.append(acc)
        out.reverse()
    return out


def make_input(ctx):
    ch = ctx.ch
    opn = ch.pick(sorted(OPS))
    mk, op, same = OPS[opn]
    n = length(ch)
    r = np.random.RandomState(ch.seed())
    a = [mk(r, i) for i in range(n)]
    if opn not in ("rect",) and ch.chance(0.15):
        a = [a[0]] * (n - 1) + [a[-1]]          # shared elements, as the LQR initialisation makes
    return opn, op, same, n, a


def judge(ctx, opn, op, same, a, reverse, res, tag):
    exp = expected(op, a, reverse)
    with ctx.judging("scan result"):
        ctx.check(isinstance(res, list), "result-type", "scan returned %s" % type(res).__name__)
        ctx.check(len(res) == len(exp), "result-length", "%s n=%d: %d results" % (opn, len(a), len(res)))
        for k, (x, y) in enumerate(zip(res, exp)):
            if not same(x, y):
                ctx.check(False, "wrong-%s" % ("suffix" if reverse else "prefix"),
                          "%s op=%s n=%d k=%d: got %r expected %r" % (tag, opn, len(a), k, x, y))
        ctx.check(True, "ok")


def snapshot(a):
    return list(a), [x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else
                     tuple(y.copy() if isinstance(y, np.ndarray) else y for y in x) if isinstance(x, tuple) else x
                     for x in a]


def same_any(x, y):
    if isinstance(x, np.ndarray):
        return eq_np(x, y)
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same_any(p, q) for p, q in zip(x, y))
    return eq(x, y)


def untouched(ctx, a, snap):
    ids, vals = snap
    ctx.check(len(a) == len(ids) and all(x is y for x, y in zip(a, ids)), "input-list-changed",
              "the caller's list was modified (length %d -> %d)" % (len(ids), len(a)))
    ctx.check(all(same_any(x, y) for x, y in zip(a, vals)), "input-element-changed", "an element was modified")


@scenario("C01", "levels", quick=6000, thorough=150000, chunk=150)
def levels(ctx):
    """One scan, loop iterations of every level in simulator-chosen order."""
    ctx.real.add(REAL)
    opn, op, same, n, a = make_input(ctx)
    reverse = ctx.ch.chance(0.5)
    ctx.info = {"op": opn, "n": n, "reverse": reverse}
    ctx.step("scan", opn, n, reverse)
    snap = snapshot(a)
    with LevelOrder(ctx):
        res = ctx.sut("scan", scan_fn(), op, a, **({"reverse": True} if reverse else {}))
    untouched(ctx, a, snap)
    ctx.check(res is not a, "result-aliases-input", "the returned list is the caller's list")
    judge(ctx, opn, op, same, a, reverse, res, "levels")


@scenario("C01", "opfault", quick=4000, thorough=80000, chunk=150)
def opfault(ctx):
    """The operation fails at chosen calls; errors must surface, and a repeated call must succeed."""
    ctx.real.add(REAL)
    ch = ctx.ch
    opn, op, same, n, a = make_input(ctx)
    n = min(n, 40)
    a = a[:n]
    reverse = ch.chance(0.5)
    snap = snapshot(a)
    kind = ch.pick(["SimFault", "MemoryError", "LinAlgError", "KeyboardInterrupt", "TypeError", "ValueError"])
    exc = {"SimFault": SimFault, "MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError,
           "KeyboardInterrupt": KeyboardInterrupt, "TypeError": TypeError, "ValueError": ValueError}[kind]
    ctx.info = {"op": opn, "n": n, "reverse": reverse, "exc": kind}
    attempts = 1 + ch.int(3)
    with LevelOrder(ctx):
        for att in range(attempts):
            fail_at = 1 + ch.int(2 * n)
            calls = [0]
            marker = []

            def failing(x, y):
                calls[0] += 1
                if calls[0] == fail_at:
                    e = exc("injected")
                    marker.append(e)
                    raise e
                return op(x, y)
            try:
                res = scan_fn()(failing, a, reverse=reverse)
                got = None
            except (SimFault, MemoryError, np.linalg.LinAlgError, KeyboardInterrupt, TypeError, ValueError) as e:
                got = e
            ctx.step("attempt", att, "fail_at", fail_at, "calls", calls[0], "fired", bool(marker))
            if marker:
                ctx.fault("op_failure")
                ctx.check(got is not None, "failure-swallowed",
                          "operation raised %s at call %d but the scan %s" %
                          (kind, fail_at, "returned a result" if got is None else "raised %r" % got))
            else:
                ctx.check(got is None, "exception:scan", "scan raised %r without a failing operation" % (got,))
                judge(ctx, opn, op, same, a, reverse, res, "opfault")
            untouched(ctx, a, snap)
        res = ctx.sut("scan", scan_fn(), op, a, reverse=reverse)
    untouched(ctx, a, snap)
    judge(ctx, opn, op, same, a, reverse, res, "after-failures")


@scenario("C01", "concurrent", quick=1500, thorough=40000, chunk=75)
def concurrent(ctx):
    """Two or three scans interleaved statement by statement, possibly over the same list."""
    ctx.real.add(REAL)
    ch = ctx.ch
    opn, op, same, n, a = make_input(ctx)
    a = a[:min(n, 20)]
    nt = 2 + ch.int(2)
    shared = ch.chance(0.6)
    jobs = []
    for t in range(nt):
        if shared:
            jobs.append((a, ch.chance(0.5), op, same, opn))
        else:
            o2, op2, same2, n2, a2 = make_input(ctx)
            jobs.append((a2[:20], ch.chance(0.5), op2, same2, o2))
    snaps = [snapshot(j[0]) for j in jobs]
    ctx.info = {"threads": nt, "shared": shared, "op": opn}
    il = Interleaver(ctx, opcode=ch.chance(0.3))
    for (lst, rev, o, s, name) in jobs:
        il.add(lambda lst=lst, rev=rev, o=o: scan_fn()(o, lst, reverse=rev))
    res = il.run()
    for (lst, rev, o, s, name), (ok, v), sn in zip(jobs, res, snaps):
        ctx.check(ok, "exception:concurrent-scan", "%r" % (v,))
        untouched(ctx, lst, sn)
        judge(ctx, name, o, s, lst, rev, v, "concurrent")


@scenario("C01", "history", quick=1500, thorough=30000, chunk=75)
def history(ctx):
    """Sequences of scans over the same and derived lists; earlier results must stay valid."""
    ctx.real.add(REAL)
    ch = ctx.ch
    opn, op, same, n, a = make_input(ctx)
    a = a[:min(n, 24)]
    kept = []
    with LevelOrder(ctx):
        for k in range(2 + ch.int(4)):
            what = ch.weighted([("same", 3), ("reverse", 2), ("slice", 2), ("edit", 2), ("nested", 1)])
            rev = ch.chance(0.5)
            lst = a
            if what == "slice" and len(a) > 1:
                lo = ch.int(len(a) - 1)
                lst = a[lo:]
            elif what == "edit" and opn != "rect":
                a[ch.int(len(a))] = a[ch.int(len(a))]
            elif what == "nested":
                seen = []

                def nested(x, y, op=op, lst=lst):
                    if not seen:
                        seen.append(1)
                        seen.append(scan_fn()(op, list(lst), reverse=not rev))
                    return op(x, y)
                snap = snapshot(lst)
                r = ctx.sut("scan", scan_fn(), nested, lst, reverse=rev)
                ctx.step("op", what, len(lst), rev)
                untouched(ctx, lst, snap)
                judge(ctx, opn, op, same, lst, rev, r, "nested-outer")
                if len(seen) > 1:
                    judge(ctx, opn, op, same, lst, not rev, seen[1], "nested-inner")
                continue
            snap = snapshot(lst)
            r = ctx.sut("scan", scan_fn(), op, lst, reverse=rev)
            ctx.step("op", what, len(lst), rev)
            untouched(ctx, lst, snap)
            kept.append((list(lst), rev, r))
    for lst, rev, r in kept:
        judge(ctx, opn, op, same, lst, rev, r, "history")
