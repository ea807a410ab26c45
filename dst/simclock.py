"""A simulated clock behind Python's time module: a wall clock that can be stepped and steady clocks that cannot."""
import sys
import time
import timeit

NAMES = ["time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
         "process_time_ns", "thread_time", "thread_time_ns"]
REALS = {n: getattr(time, n) for n in NAMES}


class SimClock:
    def __init__(self, wall=1.7e9, mono=1234.5, cpu_rate=0.25):
        self.now = 0.0
        self.wall0, self.mono0, self.perf0, self.cpu_rate = wall, mono, mono * 0.5 + 17.0, cpu_rate
        self.reads = {}
        self.steps = 0

    def advance(self, dt):
        self.now += dt

    def step_wall(self, delta):
        """Somebody sets the clock."""
        self.wall0 += delta
        self.steps += 1

    def read(self, name):
        ns = name.endswith("_ns")
        base = name[:-3] if ns else name
        self.reads[base] = self.reads.get(base, 0) + 1
        v = {"time": lambda: self.wall0 + self.now, "monotonic": lambda: self.mono0 + self.now,
             "perf_counter": lambda: self.perf0 + self.now, "process_time": lambda: 1.0 + self.now * self.cpu_rate,
             "thread_time": lambda: 0.5 + self.now * self.cpu_rate * 0.5}[base]()
        return int(round(v * 1e9)) if ns else v

    def sleep(self, dt):
        self.advance(max(dt, 0.0))


class TimePatched:
    """The code under test sees the simulated clock, however it imports it."""

    def __init__(self, clock, prefix="parallel_control"):
        self.clock, self.prefix, self.undo = clock, prefix, []

    def _set(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        sims = {id(f): (lambda n: lambda: self.clock.read(n))(n) for n, f in REALS.items()}
        byname = {n: sims[id(f)] for n, f in REALS.items()}
        sims[id(time.sleep)] = self.clock.sleep
        for n in NAMES:
            self._set(time, n, byname[n])
        self._set(time, "sleep", self.clock.sleep)
        self._set(timeit, "default_timer", byname["perf_counter"])
        for mn, m in list(sys.modules.items()):
            if m is not None and (mn == self.prefix or mn.startswith(self.prefix + ".")):
                for k, v in list(vars(m).items()):
                    if id(v) in sims:
                        self._set(m, k, sims[id(v)])
        return self

    def __exit__(self, *a):
        for obj, name, v in reversed(self.undo):
            setattr(obj, name, v)
        self.undo = []
        return False
