"""Core of the deterministic simulator: recorded choices, run context, single-run execution.

One integer seed decides one execution: every draw made by a scenario, the simulated cluster, the thread
scheduler, the fault injector, the simulated clock and the simulated disk goes through Choices, which records
it.  A run can be repeated from its seed or from its recorded (possibly minimised) list of choices.
"""

import collections
import hashlib
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken on this run."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


class SimFault(Exception):
    """An injected fault as seen by the code under test."""


class CpuLimit(BaseException):
    """A single run used more CPU time than any legal run could."""


class Choices:
    """Source of every nondeterministic decision.  Value 0 is always the simplest choice."""

    LIMIT = 200000

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []

    def _draw(self, n, gen=None):
        if n <= 1:
            return 0
        if len(self.rec) >= self.LIMIT:
            raise HarnessError("choice limit exceeded")
        if self.replay is None:
            v = self.rng.randrange(n) if gen is None else gen(self.rng)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
        if v < 0 or v >= n:
            v = min(max(v, 0), n - 1)
        self.rec.append(v)
        return v

    def int(self, n):
        """Uniform integer in [0, n)."""
        return self._draw(n)

    def range(self, lo, hi):
        """Uniform integer in [lo, hi]."""
        return lo + self._draw(hi - lo + 1)

    def size(self, lo, hi, bias=2.0):
        """Integer in [lo, hi], smaller values more likely."""
        n = hi - lo + 1
        return lo + self._draw(n, lambda r: int(n * (r.random() ** bias)))

    def chance(self, p):
        """True with probability p; False is the simple choice."""
        return self._draw(2, lambda r: 1 if r.random() < p else 0) == 1

    def pick(self, seq):
        return seq[self._draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, weight)], the first one is the simple choice."""
        tot = float(sum(w for _, w in pairs))

        def gen(r):
            x = r.random() * tot
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._draw(len(pairs), gen)][0]

    def seed(self):
        return self._draw(1 << 30)

    def shuffle(self, seq):
        """Permutation by successive picks; all zero choices give the original order."""
        rest = list(seq)
        out = []
        while rest:
            out.append(rest.pop(self._draw(len(rest))))
        return out


class Ctx:
    """What one simulated run sees and what it leaves behind."""

    def __init__(self, choices, tier="quick"):
        self.ch = choices
        self.tier = tier
        self.trace = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_time = 0.0
        self.sched = hashlib.sha256()
        self.sched_len = 0
        self.real = set()
        self.stub = set()
        self.info = {}

    # -- recording -------------------------------------------------------------------------------
    def event(self, *parts):
        self.trace.append(" ".join(str(p) for p in parts))

    def step(self, *parts):
        """An event that is part of the schedule: counts towards distinct interleavings."""
        s = " ".join(str(p) for p in parts)
        self.trace.append(s)
        self.sched.update(s.encode())
        self.sched.update(b"\n")
        self.sched_len += 1

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- judging ---------------------------------------------------------------------------------
    def check(self, cond, cls, msg=""):
        self.probes["oracle_checks"] += 1
        if not cond:
            raise Violation(cls, msg if isinstance(msg, str) else msg())

    def sut(self, label, fn, *args, **kw):
        """Call code under test: an unexpected exception from it is a violation."""
        try:
            return fn(*args, **kw)
        except (Violation, HarnessError, CpuLimit):
            raise
        except SimFault:
            raise
        except Exception as e:
            raise Violation("exception:%s:%s" % (label, type(e).__name__),
                            "%s raised %s: %s | %s" % (label, type(e).__name__, str(e)[:300], where(e)))

    def judging(self, label):
        return _Judging(label)


class _Judging:
    """Inside this block a lookup/shape/type error means the code under test returned a malformed result."""

    def __init__(self, label):
        self.label = label

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is not None and issubclass(et, (IndexError, ValueError, TypeError, KeyError, AttributeError,
                                              ArithmeticError)):
            raise Violation("malformed:%s" % self.label, "%s: %s | %s" % (et.__name__, str(e)[:300], where(e)))
        return False


def where(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__)[-4:]:
        out.append("%s:%d" % (os.path.basename(f.filename), f.lineno))
    return " < ".join(reversed(out))


# ---------------------------------------------------------------------------------------------------
# Scenario registry
# ---------------------------------------------------------------------------------------------------

class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, cpu_limit, needs, chunk):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.cpu_limit = cpu_limit
        self.needs = needs
        self.chunk = chunk


SCENARIOS = collections.OrderedDict()


def scenario(prop, name, quick, thorough=None, cpu_limit=60, needs=(), chunk=25):
    """Register a scenario: `quick`/`thorough` are the numbers of seeded runs in each tier."""
    def deco(fn):
        s = Scenario(prop, name, fn, quick, thorough or quick * 20, cpu_limit, tuple(needs), chunk)
        SCENARIOS[(prop, name)] = s
        return fn
    return deco


class Outcome:
    __slots__ = ("kind", "cls", "msg", "choices", "trace_hash", "sched_hash", "sched_len", "faults", "probes",
                 "sim_time", "trace", "info", "real", "stub", "cpu")


def run_once(scn, seed=None, replay=None, tier="quick", keep_trace=False):
    ch = Choices(seed, replay)
    ctx = Ctx(ch, tier)
    out = Outcome()
    out.kind, out.cls, out.msg = "ok", "", ""
    armed = False
    t0 = time.process_time()
    try:
        def on_cpu(signum, frame):
            raise CpuLimit()
        old = signal.signal(signal.SIGPROF, on_cpu)
        signal.setitimer(signal.ITIMER_PROF, scn.cpu_limit)
        armed = True
        try:
            scn.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            armed = False
    except Violation as e:
        out.kind, out.cls, out.msg = "violation", e.cls, e.msg
    except CpuLimit:
        out.kind, out.cls, out.msg = "violation", "no-progress", \
            "run did not finish within %d s of CPU time" % scn.cpu_limit
    except SimFault as e:
        out.kind, out.cls, out.msg = "harness", "simfault-escaped", repr(e)
    except Exception as e:
        out.kind, out.cls = "harness", type(e).__name__
        out.msg = "".join(traceback.format_exception(e))[-3000:]
    finally:
        if armed:
            signal.setitimer(signal.ITIMER_PROF, 0)
    out.cpu = time.process_time() - t0
    out.choices = ch.rec
    h = hashlib.sha256()
    for t in ctx.trace:
        h.update(t.encode())
        h.update(b"\n")
    h.update(("%s %s" % (out.kind, out.cls)).encode())
    out.trace_hash = h.hexdigest()
    out.sched_hash = ctx.sched.hexdigest()[:16]
    out.sched_len = ctx.sched_len
    out.faults, out.probes, out.sim_time = dict(ctx.faults), dict(ctx.probes), ctx.sim_time
    out.info = ctx.info
    out.real, out.stub = sorted(ctx.real), sorted(ctx.stub)
    out.trace = ctx.trace if keep_trace else None
    return out


def derive_seed(base, prop, name, i):
    return int.from_bytes(hashlib.sha256(("%s|%s|%s|%d" % (base, prop, name, i)).encode()).digest()[:8], "big")


# ---------------------------------------------------------------------------------------------------
# Minimisation
# ---------------------------------------------------------------------------------------------------

def minimise(scn, choices, cls, tier, max_runs=400, max_cpu=60.0):
    """Shortlex-style reduction of the recorded choices while the same violation class persists."""
    best = list(choices)
    runs = [0]
    t_end = time.process_time() + max_cpu

    def test(c):
        if runs[0] >= max_runs or time.process_time() > t_end:
            return None
        runs[0] += 1
        o = run_once(scn, replay=c, tier=tier)
        if o.kind == "violation" and o.cls == cls:
            r = list(o.choices)
            while r and r[-1] == 0:
                r.pop()
            return r
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(c):
        nonlocal best
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        if not better(c, best):
            return False
        r = test(c)
        if r is None:
            return False
        best = r if better(r, best) else (c if better(c, best) else best)
        return True

    attempt(best)
    improved = True
    while improved and runs[0] < max_runs and time.process_time() < t_end:
        improved = False
        # cut the tail
        n = len(best)
        cut = n // 2
        while cut >= 1:
            if cut <= len(best) and attempt(best[:len(best) - cut]):
                improved = True
            else:
                cut //= 2
        # delete chunks
        for size in (16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= size
        # zero chunks
        for size in (8, 4, 1):
            i = len(best) - size
            while i >= 0:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i -= size
        # lower single values
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            if hi > 1000:
                for v in (1, 2, 3, 7):
                    if attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
                continue
            while i < len(best) and lo < hi:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
    return best, runs[0]
