"""Simulated cluster: executes the combine operations of an associative scan as tasks on workers.

The simulator chooses the bracketing (which adjacent partial results are combined), the worker each task runs
on, latencies, stragglers with speculative duplicates, worker crashes that lose a result (the task is executed
again), and whether operands are delivered by reference or as copies.
"""

import copy
import heapq

from .core import HarnessError


# ---------------------------------------------------------------------------------------------------
# Plans: lists of nodes.  Nodes 0..n-1 are the leaves; node i >= n is (left, right).
# ---------------------------------------------------------------------------------------------------

def make_plan(ch, n):
    """Returns (style, nodes, out): nodes[i-n] = (l, r); out[k] = node holding the prefix 0..k."""
    style = ch.weighted([("fold", 1), ("divide", 3), ("contract", 2), ("mixed", 4), ("independent", 2),
                         ("hillis", 1), ("blocks", 2), ("rfold", 1)])
    nodes = []

    def add(l, r):
        nodes.append((l, r))
        return n + len(nodes) - 1

    def fold(xs):
        out = [xs[0]]
        for x in xs[1:]:
            out.append(add(out[-1], x))
        return out

    def divide(xs, rnd):
        m = len(xs)
        if m == 1:
            return list(xs)
        k = 1 + ch.int(m - 1) if rnd else (m + 1) // 2
        l = rec(xs[:k])
        r = rec(xs[k:])
        return l + [add(l[-1], y) for y in r]

    def contract(xs):
        m = len(xs)
        if m == 1:
            return list(xs)
        # combine random disjoint adjacent pairs, scan the contracted sequence, then fill in
        groups = []
        i = 0
        while i < m:
            if i + 1 < m and (ch.int(3) != 2 or not groups and i + 2 >= m):
                groups.append((i, i + 1))
                i += 2
            else:
                groups.append((i,))
                i += 1
        if len(groups) == m:
            groups = [(0, 1)] + [(j,) for j in range(2, m)]
        vals = [xs[g[0]] if len(g) == 1 else add(xs[g[0]], xs[g[1]]) for g in groups]
        pre = rec(vals)
        out = [None] * m
        for gi, g in enumerate(groups):
            out[g[-1]] = pre[gi]
            if len(g) == 2:
                out[g[0]] = xs[g[0]] if gi == 0 else add(pre[gi - 1], xs[g[0]])
        return out

    def tree(xs):
        if len(xs) == 1:
            return xs[0]
        k = 1 + ch.int(len(xs) - 1)
        return add(tree(xs[:k]), tree(xs[k:]))

    def rtree(xs):
        v = xs[-1]
        for x in reversed(xs[:-1]):
            v = add(x, v)
        return v

    def rec(xs):
        if style == "divide":
            return divide(xs, True)
        if style == "contract":
            return contract(xs)
        if style == "mixed":
            k = ch.int(3)
            return divide(xs, True) if k == 0 else contract(xs) if k == 1 else fold(xs)
        return fold(xs)

    leaves = list(range(n))
    if n > 64 and style in ("independent", "rfold"):
        style = "divide"
    if style == "fold":
        out = fold(leaves)
    elif style in ("divide", "contract", "mixed"):
        out = rec(leaves)
    elif style == "independent":
        out = [tree(leaves[:k + 1]) for k in range(n)]
    elif style == "rfold":
        out = [rtree(leaves[:k + 1]) for k in range(n)]
    elif style == "hillis":
        cur = leaves
        d = 1
        while d < n:
            cur = [cur[i] if i < d else add(cur[i - d], cur[i]) for i in range(n)]
            d *= 2
        out = cur
    else:  # blocks: every worker scans its block, totals are scanned, then fixed up
        b = 1 + ch.int(max(n - 1, 1))
        locs = [fold(leaves[i:i + b]) for i in range(0, n, b)]
        tot = fold([l[-1] for l in locs])
        out = list(locs[0])
        for bi in range(1, len(locs)):
            out += [add(tot[bi - 1], y) for y in locs[bi]]
    return style, nodes, out


class Cluster:
    """One simulated cluster, living for one run; every scan routed to it adds to its clock and trace."""

    def __init__(self, ctx, faults=True, maxcrash=None):
        ch = ctx.ch
        self.ctx = ctx
        self.workers = 1 + ch.int(4)
        kinds = ["crash", "duplicate", "straggler", "bycopy", "lostresult"]
        self.enabled = {k for k in kinds if faults and ch.chance(0.5)}
        self.rate = ch.pick([0.05, 0.15, 0.4]) if self.enabled else 0.0
        self.maxfault = 12
        self.now = 0.0
        self.scans = 0
        self.fired = 0
        self.policy = ch.pick(["fifo", "random", "lifo"])

    def _fire(self, kind):
        if kind in self.enabled and self.fired < self.maxfault and self.ctx.ch.chance(self.rate):
            self.fired += 1
            self.ctx.fault(kind)
            return True
        return False

    def run_plan(self, n, nodes, values, op_many, copier):
        """Executes the plan; op_many(list of (l, r)) -> list of results."""
        ctx, ch = self.ctx, self.ctx.ch
        total = n + len(nodes)
        val = list(values) + [None] * len(nodes)
        done = [True] * n + [False] * len(nodes)
        users = [[] for _ in range(total)]
        missing = {}
        for j, (l, r) in enumerate(nodes):
            i = n + j
            missing[i] = 0
            for x in {l, r}:
                if not done[x]:
                    missing[i] += 1
                users[x].append(i)
        ready = [i for i in range(n, total) if missing[i] == 0]
        idle = list(range(self.workers))
        events = []
        seq = 0
        running = {}
        left = len(nodes)
        guard = 0
        while left:
            guard += 1
            if guard > 50 * (len(nodes) + 20):
                raise HarnessError("cluster did not finish")
            while ready and idle:
                if self.policy == "fifo" or len(ready) == 1:
                    k = 0
                elif self.policy == "lifo":
                    k = len(ready) - 1
                else:
                    k = ch.int(min(len(ready), 16))
                t = ready.pop(k)
                w = idle.pop(0)
                lat = 1 + ch.int(4)
                if self._fire("straggler"):
                    lat += 40
                    if "duplicate" in self.enabled and not done[t]:
                        ready.append(t)      # speculative copy of a straggling task
                        ctx.fault("speculative_copy")
                elif self._fire("duplicate"):
                    ready.append(t)
                crash = 0
                if self._fire("crash"):
                    crash = 1 + ch.int(2)    # 1: before computing, 2: after computing, result lost
                elif self._fire("lostresult"):
                    crash = 3
                seq += 1
                ctx.step("start", t, "w%d" % w, lat, crash)
                heapq.heappush(events, (self.now + lat, seq, w, t, crash))
                running[t] = running.get(t, 0) + 1
            if not events:
                raise HarnessError("cluster stalled")
            at, _, w, t, crash = heapq.heappop(events)
            self.now = at
            running[t] -= 1
            idle.append(w)
            if crash == 1:
                ctx.step("crash", t, "w%d" % w)
                if not done[t] and not running[t] and t not in ready:
                    ready.append(t)
                continue
            l, r = nodes[t - n]
            a, b = val[l], val[r]
            if "bycopy" in self.enabled:
                a, b = copier(a), copier(b)
            res = op_many([(a, b)])[0]
            if crash:
                ctx.step("lost", t, "w%d" % w)
                if not done[t] and not running[t] and t not in ready:
                    ready.append(t)
                continue
            ctx.step("done", t, "w%d" % w)
            first = not done[t]
            if not first and not ch.chance(0.5):
                continue                      # late duplicate dropped
            val[t] = res
            if first:
                done[t] = True
                left -= 1
                for u in users[t]:
                    missing[u] -= 1
                    if missing[u] == 0:
                        ready.append(u)
            else:
                ctx.probe("late_duplicate_used")
        self.ctx.sim_time = max(self.ctx.sim_time, self.now)
        return val

    def scan(self, op, elems, reverse=False):
        """Drop-in for my_assoc_scan(op, a, reverse)."""
        elems = list(elems)
        n = len(elems)
        self.scans += 1
        if n == 0:
            raise ValueError("empty scan")
        if reverse:
            elems = elems[::-1]
        style, nodes, out = make_plan(self.ctx.ch, n)
        self.ctx.probe("scan_tasks", len(nodes))
        self.ctx.step("scan", n, style, "W%d" % self.workers, self.policy)

        def one(pairs):
            return [op(b, a) if reverse else op(a, b) for a, b in pairs]
        val = self.run_plan(n, nodes, elems, one, copy.deepcopy)
        res = [val[i] for i in out]
        return res[::-1] if reverse else res

    def tf_scan(self, fn, elems, max_num_levels=48, axis=0, validate_args=False, name=None):
        """Drop-in for tfp.math.scan_associative in eager mode; tasks are slices of the batch axis."""
        import tensorflow as tf
        flat = tf.nest.flatten(elems)
        n = int(flat[0].shape[axis])
        self.scans += 1
        if axis != 0:
            raise HarnessError("scan over axis %d not simulated" % axis)
        for t in flat:
            if int(t.shape[0]) != n:
                raise ValueError("elems have different lengths")
        if n == 0:
            raise ValueError("empty scan")
        leaves = []
        parts = [tf.split(tf.convert_to_tensor(t), n, axis=0) if n > 1 else [tf.convert_to_tensor(t)] for t in flat]
        for i in range(n):
            leaves.append(tf.nest.pack_sequence_as(elems, [p[i] for p in parts]))
        style, nodes, out = make_plan(self.ctx.ch, n)
        self.ctx.probe("scan_tasks", len(nodes))
        self.ctx.step("tfscan", n, style, "W%d" % self.workers, self.policy)

        def one(pairs):
            return [fn(a, b) for a, b in pairs]
        val = self.run_plan(n, nodes, leaves, one, lambda x: tf.nest.map_structure(tf.identity, x))
        res = [tf.nest.flatten(val[i]) for i in out]
        cols = [tf.concat([r[j] for r in res], axis=0) if n > 1 else res[0][j] for j in range(len(flat))]
        return tf.nest.pack_sequence_as(elems, cols)


# ---------------------------------------------------------------------------------------------------
# Seams
# ---------------------------------------------------------------------------------------------------

_ORIG = {}


def originals():
    if "np" not in _ORIG:
        import sys
        m = sys.modules["parallel_control.my_assoc_scan"]
        _ORIG["np"] = m.my_assoc_scan
    return _ORIG


class Patched:
    """Routes the scan seam to a cluster (or to the given functions) while active."""

    def __init__(self, np_scan=None, tf_scan=None):
        self.np_scan, self.tf_scan = np_scan, tf_scan
        self.undo = []

    def __enter__(self):
        import sys
        if self.np_scan is not None:
            orig = originals()["np"]
            for name, m in list(sys.modules.items()):
                if name.startswith("parallel_control.") and m is not None:
                    for k, v in list(vars(m).items()):
                        if v is orig:
                            self.undo.append((m, k, v))
                            setattr(m, k, self.np_scan)
        if self.tf_scan is not None:
            import tensorflow_probability as tfp
            orig = tfp.math.scan_associative
            self.undo.append((tfp.math, "scan_associative", orig))
            setattr(tfp.math, "scan_associative", self.tf_scan)
            for name, m in list(sys.modules.items()):
                if name.startswith("parallel_control.") and m is not None:
                    for k, v in list(vars(m).items()):
                        if v is orig:
                            self.undo.append((m, k, v))
                            setattr(m, k, self.tf_scan)
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        return False


class LevelOrder:
    """Permutes the iterations of the scan's loops marked parallel (guarded hook in the repository)."""

    def __init__(self, ctx, p=0.8):
        self.ctx, self.p = ctx, p

    def order(self, iterations):
        it = list(iterations)
        ch = self.ctx.ch
        if len(it) < 2:
            return it
        kind = ch.weighted([("given", 1), ("random", 4), ("reversed", 2), ("rotate", 2)])
        if kind == "random":
            it = ch.shuffle(it) if len(it) <= 64 else it[::-1]
        elif kind == "reversed":
            it = it[::-1]
        elif kind == "rotate":
            k = ch.int(len(it))
            it = it[k:] + it[:k]
        self.ctx.step("level", kind, ",".join(map(str, it[:64])))
        self.ctx.probe("levels_permuted")
        return it

    def __enter__(self):
        import sys
        self.m = sys.modules["parallel_control.my_assoc_scan"]
        self.old = getattr(self.m, "parallel_order", None)
        self.m.parallel_order = self.order
        return self

    def __exit__(self, *a):
        self.m.parallel_order = self.old
        return False
