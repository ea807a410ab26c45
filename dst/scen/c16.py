"""C16: experiment scripts on a simulated disk, with crashes, failing methods and restarts."""
import ast
import errno
import inspect
import math
import random
import sys

import numpy as np

from ..core import Violation, scenario
from ..expsim import Disk, Outside, run_script
from ..simclock import SimClock, TimePatched
from ..tfutil import Eager
from .c15 import World, SlowModel, duration, mod

B = "experiments-bellman/run_%s_experiments.py"
H = "experiments-hjb/run_%s_experiments.py"
V = "experiments-viterbi/run_%s_experiments.py"

# script -> default settings, benchmark module, [(routine, file name)], config file or not
SCRIPTS = {
    "linear": dict(path=B % "linear", module="linear_speedtest", kind="gen", config=False, name="{model}_{n}_%s_{dev}",
                   defaults=dict(model="tracking", start=2.0, stop=5.0, num=20, n=4, nc=4, single=0, device="/CPU:0", mask=65535),
                   methods=[("lqt_sequential_bw_speedtest", "sequential_bw"), ("lqt_parallel_bw_speedtest", "parallel_bw"),
                            ("lqt_sequential_bwfw_speedtest", "sequential_bwfw"), ("lqt_parallel_bwfw_1_speedtest", "parallel_bwfw_1"),
                            ("lqt_parallel_bwfw_2_speedtest", "parallel_bwfw_2"),
                            ("lqt_sequential_cond_bwfw_speedtest", "sequential_cond{nc}_bwfw"),
                            ("lqt_parallel_cond_bwfw_1_speedtest", "parallel_cond{nc}_bwfw_1"),
                            ("lqt_parallel_cond_bwfw_2_speedtest", "parallel_cond{nc}_bwfw_2")]),
    "finite": dict(path=B % "finite", module="finite_speedtest", kind="gen", config=False, name="finite_%s_{nx}_{dev}",
                   defaults=dict(start=2.0, stop=5.0, num=20, nx=21, single=0, device="/CPU:0", mask=31),
                   methods=[("fsc_seq_bw_speedtest", "seq_bw"), ("fsc_par_bw_speedtest", "par_bw"), ("fsc_seq_bwfw_speedtest", "seq_bwfw"),
                            ("fsc_par_bwfw_1_speedtest", "par_bwfw_1"), ("fsc_par_bwfw_2_speedtest", "par_bwfw_2")]),
    "nonlinear": dict(path=B % "nonlinear", module="nonlinear_speedtest", kind="gen", config=False, name="nonlinear_%s_{dev}",
                      defaults=dict(start=2.0, stop=5.0, num=20, single=0, device="/CPU:0", mask=7),
                      methods=[("nlqt_iter_seq_speedtest", "seq"), ("nlqt_iter_par_1_speedtest", "par_1"),
                               ("nlqt_iter_par_2_speedtest", "par_2")]),
    "contlin": dict(path=H % "contlin", module="contlin_speedtest", kind="size", config=True, name="{model}_{n}_%s_{dev}",
                    defaults=dict(model="tracking", start=2.0, stop=3.0, num=5, steps=10, n=4, niter=2, single=0, device="/CPU:0", mask=65535),
                    methods=[("clqt_seq_bw_speedtest", "seq_bw"), ("clqt_seq_bw_fw_speedtest", "seq_bw_fw"), ("clqt_par_bw_speedtest", "par_bw"),
                             ("clqt_par_bw_fw_speedtest", "par_bw_fw"), ("clqt_par_bw_fwbw_speedtest", "par_bw_fwbw"),
                             ("clqt_parareal_bw_speedtest", "parareal_{niter}_bw"),
                             ("clqt_parareal_bw_fw_speedtest", "parareal_{niter}_bw_fw"),
                             ("clqt_parareal_bw_fwbw_speedtest", "parareal_{niter}_bw_fwbw")]),
    "hjb": dict(path=H % "nonlin", module="hjb_grid_1d_speedtest", kind="size", config=True, name="{model}_{n}_%s_{dev}",
                defaults=dict(model="velocity", start=2.0, stop=3.0, num=5, steps=10, n=20, single=0, device="/CPU:0", mask=65535),
                methods=[("seq_upwind_speedtest", "seq_upwind"), ("seq_assoc_speedtest", "seq_assoc"), ("par_assoc_speedtest", "par_assoc")]),
    "viterbi": dict(path=V % "viterbi", module="viterbi_tf", kind="size", config=True, name="{model}_%s_{dev}",
                    defaults=dict(model="ge", start=2.0, stop=3.0, num=5, steps=10, single=0, device="/CPU:0", mask=65535),
                    methods=[("viterbi_seq_fwbw_speedtest", "viterbi_seq_fwbw"), ("viterbi_par_fwbw_speedtest", "viterbi_par_fwbw"),
                             ("viterbi_seqpar_fwbw_speedtest", "viterbi_seqpar_fwbw"),
                             ("viterbi_par_fwbwfw_speedtest", "viterbi_par_fwbwfw")]),
}
GROUPS = [("linear", "finite", "nonlinear"), ("contlin", "hjb"), ("viterbi",)]
REAL = [s["path"] for s in SCRIPTS.values()] + ["problem generators", "experiments-viterbi/run_text_experiments.py",
                                                "experiments-viterbi/run_text_experiments_2.py"]


def dev_text(cfg):
    return "".join(c.lower() for c in cfg["device"] if c.isalpha()) + ("_sc" if cfg["single"] else "_mc")


def file_names(name, cfg, k):
    s = SCRIPTS[name]
    f = "res/" + (s["name"] % s["methods"][k][1]).format(dev=dev_text(cfg), **{x: y for x, y in cfg.items()})
    return [f + ".txt"] + ([f + "_config.txt"] if s["config"] else [])


class MethodFailed(Exception):
    pass


class Experiment:
    """One process running one script: wraps the benchmark routines, watches the disk between methods."""

    def __init__(self, ctx, disk, name, cfg, clock, expect, deep, fail_call, fail_exc):
        self.ctx, self.disk, self.name, self.cfg, self.clock = ctx, disk, name, cfg, clock
        self.spec = SCRIPTS[name]
        self.expect = expect            # file -> ("same", bytes) | ("rows", rows) | ("config", cfg) | None
        self.deep = deep                # real routines on stub solvers instead of stub routines
        self.fail_call, self.fail_exc = fail_call, fail_exc
        self.current = None
        self.results = {}               # method -> list of returned values
        self.failed = set()
        self.started = []
        self.ncalls = 0
        self.undo = []
        self.rs = np.random.RandomState(ctx.ch.seed())
        self.err = None
        self.sizes = [int(x) for x in np.logspace(cfg["start"], cfg["stop"], num=cfg["num"], base=10).astype(int)]
        self.n_sel = [k for k in range(len(self.spec["methods"])) if cfg["mask"] >> k & 1]

    def __enter__(self):
        m = mod(self.spec["module"])
        swap = {}
        for k, (r, _) in enumerate(self.spec["methods"]):
            f = getattr(m, r)
            swap[id(f)] = (f, self._wrap(k, f))
        for mn, mm in list(sys.modules.items()):
            if mm is not None and mn.startswith("parallel_control."):
                for a, v in list(vars(mm).items()):
                    if id(v) in swap:
                        self.undo.append((mm, a, v))
                        setattr(mm, a, swap[id(v)][1])
        return self

    def __exit__(self, *a):
        for mm, a, v in reversed(self.undo):
            setattr(mm, a, v)
        self.undo = []
        return False

    def _wrap(self, k, f):
        sig = inspect.signature(f)

        def routine(*a, **kw):
            try:
                self.disk.point("method")
                self.enter(k)
                b = sig.bind(*a, **kw)
                b.apply_defaults()
                return self.call(k, f, b)
            except Exception as e:
                if self.err is None and type(e).__name__ == "Violation":
                    self.err = e
                raise
        return routine

    def enter(self, k):
        ctx = self.ctx
        ctx.check(k in self.n_sel, "unselected", lambda: "%s mask=%d ran method %d (%s)" % (self.name, self.cfg["mask"], k, self.spec["methods"][k][0]))
        if k != self.current:
            ctx.check(k not in self.started, "twice", lambda: "%s ran method %d twice" % (self.name, k))
            if self.current is not None:
                self.complete(self.current)
            self.started.append(k)
            self.current = k
            self.results[k] = []
            for f in file_names(self.name, self.cfg, k):
                self.expect[f] = None
            ctx.step("method", self.name, k)
            self.verify("when method %d started" % k)

    def call(self, k, f, b):
        ctx, cfg = self.ctx, self.cfg
        p = b.arguments
        ctx.check(p.get("device") == cfg["device"], "settings", lambda: "%s method %d ran on device %r, not %r" % (self.name, k, p.get("device"), cfg["device"]))
        for par, key in (("Nc", "nc"), ("parareal_niter", "niter")):
            if par in p:
                ctx.check(p[par] == cfg[key], "settings", lambda: "%s method %d: %s=%r, requested %r" % (self.name, k, par, p[par], cfg[key]))
        call = self.ncalls
        self.ncalls += 1
        fail = self.fail_call == call
        if fail and not self.deep:
            self.fail(k)
        if self.spec["kind"] == "gen":
            if fail:
                self.world.fail_next = lambda: self.fail(k)
            if self.deep:
                out = f(*b.args, **b.kwargs)
            else:
                T, D = [], []
                for prob in b.args[0]:
                    T.append(prob[1].shape[0] if self.name != "nonlinear" else prob[0].shape[0])
                    D.append(prob[1].shape[1])
                    self.clock.advance(1.0)
                out = (T, D, [self.value() for _ in T])
            self.sizes_ok(k, out)
            self.results[k].append(out)
            return out
        i = len(self.results[k])
        size = p.get("blocks", p.get("steps") if self.name == "viterbi" else None)
        ctx.check(i < len(self.sizes) and int(size) == self.sizes[i], "sizes", lambda: "%s method %d: call %d solved size %r, requested sizes %s" % (self.name, k, i, size, self.sizes))
        if self.name != "viterbi":
            ctx.check(int(p["steps"]) == cfg["steps"], "settings", lambda: "%s method %d: steps=%r, requested %r" % (self.name, k, p["steps"], cfg["steps"]))
        if fail:
            self.world.fail_next = lambda: self.fail(k)
        if self.deep:
            out = f(*b.args, **b.kwargs)
        else:
            self.clock.advance(1.0)
            out = tuple(self.value() for _ in range(3 if self.name == "hjb" else 2))
        self.results[k].append(out)
        return out

    def sizes_ok(self, k, out):
        T, D, times = out
        cfg = self.cfg
        self.ctx.check(len(T) == cfg["num"] == len(D) == len(times), "sizes", lambda: "%s method %d: %d problems for num=%d" % (self.name, k, len(T), cfg["num"]))
        for t, d, s in zip(T, D, self.sizes):
            if self.name == "finite" or cfg.get("model") == "mass":
                good = t == s
            elif self.name == "linear":
                good = t == s // 10 * 10
            else:
                good = True
            dim = {"finite": cfg.get("nx"), "nonlinear": 4}.get(self.name, 4 if cfg.get("model") == "tracking" else 2 * cfg.get("n", 0))
            self.ctx.check(good and d == dim, "sizes", lambda: "%s method %d solved T=%s D=%s for requested sizes %s" % (self.name, k, T, D, self.sizes))

    def fail(self, k):
        self.failed.add(k)
        self.ctx.fault("method_" + type(self.fail_exc).__name__)
        self.ctx.step("fails", k, type(self.fail_exc).__name__)
        raise self.fail_exc

    def value(self):
        r = self.rs
        return [lambda: r.rand(), lambda: 10.0 ** r.randint(-7, 6), lambda: 0.0, lambda: float("nan"), lambda: float("inf"),
                lambda: r.rand() * 1e-3][r.choice(6, p=[.45, .2, .05, .05, .05, .2])]()

    # -- oracle -----------------------------------------------------------------------------------------------------
    def complete(self, k):
        """Method k is over: from now on its files must hold its results."""
        if k in self.failed:
            return
        files = file_names(self.name, self.cfg, k)
        if self.spec["kind"] == "gen":
            rows = list(zip(*self.results[k][0]))
        else:
            self.ctx.check(len(self.results[k]) == len(self.sizes), "sizes", lambda: "%s method %d solved %d of %d sizes" % (self.name, k, len(self.results[k]), len(self.sizes)))
            dim = {"contlin": [4], "hjb": [self.cfg.get("n")]}.get(self.name, [])
            rows = [tuple([s] + dim + list(v)) for s, v in zip(self.sizes, self.results[k])]
        self.expect[files[0]] = ("rows", rows)
        if len(files) > 1:
            self.expect[files[1]] = ("config", dict(self.cfg))

    def verify(self, when):
        disk = self.disk.files()
        for f, e in self.expect.items():
            if e is None:
                continue
            self.ctx.check(f in disk, "lost-file", lambda: "%s %s: file %s is missing" % (self.name, when, f))
            d = disk[f]
            if e[0] == "same":
                self.ctx.check(d == e[1], "touched", lambda: "%s %s: unrelated file %s changed" % (self.name, when, f))
            elif e[0] == "rows":
                same_rows(self.ctx, "%s %s" % (self.name, when), f, d, e[1])
            else:
                try:
                    c = ast.literal_eval(d.decode())
                except Exception:
                    c = None
                self.ctx.check(c == e[1], "config", lambda: "%s %s: %s holds %r, the settings were %r" % (self.name, when, f, d, e[1]))
        for f in disk:
            if f not in self.expect and not f.endswith((".tmp", "~")) and f.startswith("res/") and f.endswith(".txt"):
                self.ctx.check(False, "stray-file", "%s %s: wrote %s, which belongs to no selected method" % (self.name, when, f))


def close(a, b):
    if math.isnan(b) or math.isinf(b):
        return math.isnan(a) if math.isnan(b) else a == b
    return abs(a - b) <= 5.1e-7 + 1e-12 * abs(b)


def same_rows(ctx, when, f, data, rows):
    lines = data.decode().split("\n")
    ctx.check(lines[-1] == "" and len(lines) - 1 == len(rows), "incomplete", lambda: "%s: %s has %d complete rows of %d: %r" % (when, f, len(lines) - 1, len(rows), data[-80:]))
    for ln, r in zip(lines, rows):
        got = ln.split()
        try:
            ok = len(got) == len(r) and all(close(float(g), float(x)) for g, x in zip(got, r))
        except ValueError:
            ok = False
        ctx.check(ok, "wrong-row", lambda: "%s: %s has row %r for results %s" % (when, f, ln, r))


class Costs(World):
    """Solver stubs with a hook for a failing solve."""
    fail_next = None
    countdown = 0

    def spend(self, name):
        super().spend(name)
        if self.fail_next is not None:
            if self.countdown <= 0:
                f, self.fail_next = self.fail_next, None
                f()
            self.countdown -= 1


def settings(ch, name):
    cfg = dict(SCRIPTS[name]["defaults"])
    cfg["start"] = ch.pick([1.0, 1.3, 0.5, 2.0])
    cfg["num"] = 1 + ch.int(4)
    cfg["stop"] = cfg["start"] + ch.pick([0.5, 0.0, 0.3])
    if name == "linear":
        cfg["model"] = ch.pick(["tracking", "mass"])
        if cfg["model"] == "tracking":
            cfg["start"] = max(cfg["start"], 1.0)
            cfg["stop"] = max(cfg["stop"], cfg["start"])
        else:
            cfg["n"] = 1 + ch.int(3)
        cfg["nc"] = ch.pick([4, 2, 3])
    elif name == "finite":
        cfg["nx"] = ch.pick([5, 21, 3])
    elif name == "viterbi":
        cfg["model"] = ch.pick(["ge", "other"])
    elif name != "nonlinear":
        cfg["steps"] = ch.pick([10, 1, 3])
        cfg["n"] = ch.pick([4, 6])
        if name == "contlin":
            cfg["niter"] = ch.pick([2, 1, 5])
    nm = len(SCRIPTS[name]["methods"])
    if ch.chance(0.8):
        cfg["mask"] = ch.int(1 << nm) if not ch.chance(0.2) else (1 << ch.int(nm)) | (ch.int(4) << nm)
    if ch.chance(0.3):
        cfg["single"] = 1
    cfg["device"] = ch.pick(["/CPU:0", "/device:CPU:0", "/cpu:0"])
    return cfg


def arguments(ch, name, cfg):
    d = SCRIPTS[name]["defaults"]
    keys = [k for k in cfg if cfg[k] != d[k] or (k not in ("steps",) and ch.chance(0.1))]
    return ["%s=%s" % (k, cfg[k]) for k in ch.shuffle(keys)]


def faults(ch, disk, est):
    """Chooses what goes wrong in this process."""
    at_line = fail_call = None
    disk.bufsize = ch.pick([8192, 16, 1, 64])
    disk.short = ch.chance(0.2)
    kind = ch.weighted([("none", 3), ("crash", 3), ("line", 2), ("method", 2), ("disk", 3)])
    if kind == "crash":
        disk.crash_at = 1 + ch.int(est["ops"])
    elif kind == "line":
        at_line = 1 + ch.int(est["lines"])
    elif kind == "method":
        fail_call = ch.int(max(est["calls"], 1))
    elif kind == "disk":
        disk.fail_at = 1 + ch.int(est["ops"])
        disk.fail_errno = ch.pick([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE, errno.EDQUOT])
        disk.sticky = ch.chance(0.5)
    return kind, at_line, fail_call


def exceptions():
    import tensorflow as tf
    return [MemoryError("simulated"), tf.errors.ResourceExhaustedError(None, None, "simulated"), RuntimeError("simulated"),
            KeyboardInterrupt()]


def process(ctx, disk, name, expect):
    """One run of a script; returns nothing, `expect` is updated."""
    ch = ctx.ch
    cfg = settings(ch, name)
    sel = [k for k in range(len(SCRIPTS[name]["methods"])) if cfg["mask"] >> k & 1]
    per = 1 if SCRIPTS[name]["kind"] == "gen" else cfg["num"]
    est = {"ops": max(1, len(sel) * (per + 5 + 4 * SCRIPTS[name]["config"])), "calls": len(sel) * per,
           "lines": 60 + len(sel) * (25 + 20 * cfg["num"])}
    kind, at_line, fail_call = faults(ch, disk, est)
    deep = ch.chance(0.35)
    clock = SimClock()
    rs = np.random.RandomState(ch.seed())
    dist = ch.pick(["uniform", "equal", "tiny", "heavy"])
    world = Costs(lambda p, k, lab: duration(rs, dist), clock)
    world.countdown = ch.int(12) if fail_call is not None else 0
    args = arguments(ch, name, cfg)
    bad = ch.weighted([(None, 12), ("nonsense=1", 1), ("mask", 1), ("start=1=2", 1)])
    if name in ("linear", "contlin") and bad is None and sel and ch.chance(0.06):
        bad = "model=nosuch"
    if bad:
        args.insert(ch.int(len(args) + 1) if not bad.startswith("model") else len(args), bad)
    ctx.step("process", name, kind, deep, *args)
    exp = Experiment(ctx, disk, name, cfg, clock, expect, deep, fail_call, ch.pick(exceptions()))
    exp.world = world
    seed = ch.seed()
    state = np.random.get_state(), random.getstate()
    np.random.seed(seed)
    random.seed(seed)
    try:
        with Eager(), TimePatched(clock), world, exp:
            try:
                status, e = run_script(SCRIPTS[name]["path"], args, disk, at_line)
            except Outside as x:
                ctx.check(False, "outside", "%s changes a path outside its directory: %s" % (name, x))
    finally:
        np.random.set_state(state[0])
        random.setstate(state[1])
    ctx.sim_time += clock.now
    if exp.err is not None:
        raise exp.err
    ctx.step("ended", name, status, type(e).__name__ if status == "error" else "", len(exp.started))
    if status == "crash":
        ctx.probe("crashed_processes")
    faulty = kind != "none" and (status == "crash" or bool(exp.failed) or any(k.startswith("disk_") for k in ctx.faults))
    if bad and status != "crash":
        ctx.check(status == "exit" and e.code not in (0, None) and not exp.started, "usage", lambda: "%s %s: status %s %r, ran %s" % (name, args, status, e, exp.started))
    elif status == "error" and not faulty:
        raise e
    elif status in ("ok", "exit"):
        if status == "exit":
            ctx.check(e.code in (0, None) or faulty, "exit", lambda: "%s %s exited with %r" % (name, args, e.code))
        if status == "ok" or e.code in (0, None):
            missing = [k for k in exp.n_sel if k not in exp.started]
            ctx.check(not missing, "not-run", lambda: "%s mask=%d did not run methods %s" % (name, cfg["mask"], missing))
            if exp.current is not None:
                exp.complete(exp.current)
    exp.verify("after the process ended (%s)" % status)
    ctx.probe("methods_finished", sum(1 for k in exp.started if expect.get(file_names(name, cfg, k)[0])))


@scenario("C16", "scripts", quick=2400, thorough=60000, chunk=60, needs=("tf", "speed"), cpu_limit=120)
def scripts(ctx):
    """Histories of one to three processes in one result directory."""
    ch = ctx.ch
    ctx.real.update(REAL)
    ctx.stub.update(["solver functions called by the benchmarks", "disk below open()", "clocks of the time module"])
    group = ch.pick(GROUPS)
    disk = Disk(ctx)
    try:
        expect = {}
        junk = {"res/notes.md": b"keep me\n", "README": b"x"}
        if ch.chance(0.5):
            n = ch.pick(group)
            cfg = settings(ch, n)
            for k in range(len(SCRIPTS[n]["methods"])):
                if ch.chance(0.6):
                    for f in file_names(n, cfg, k):
                        junk[f] = b"1 2 3.5\n" * (1 + ch.int(40))
        for f, d in junk.items():
            with open("%s/%s" % (disk.cwd, f), "wb") as h:
                h.write(d)
            expect[f] = ("same", d)
        for _ in range(1 + ch.int(3)):
            name = ch.pick(group)
            ctx.sut("run_%s_experiments" % name, process, ctx, disk, name, expect)
            disk.restart()
    finally:
        disk.destroy()


TEXT_METHODS = ["viterbi_seq_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbw", "viterbi_par_fwbwfw"]


def text_experiment(ctx, jumpy):
    """One of the two scripts that store a single file with a row per selected method."""
    import tensorflow as tf
    ch = ctx.ch
    two = ch.chance(0.5)
    rel = V % ("text_2" if two else "text")
    if two:
        rel = "experiments-viterbi/run_text_experiments_2.py"
    order = 2 if ch.chance(0.04) else 1
    rs = np.random.RandomState(ch.seed())
    letters = " abcdefghijklmnopqrstuvwxyz"
    texts = ["".join(letters[i] for i in rs.randint(0, 27, 1 + order + ch.int(40))) for _ in range(2)]
    cfg = dict(order=order, single=int(ch.chance(0.3)), device=ch.pick(["/CPU:0", "/device:CPU:0"]), mask=ch.pick([15, 65535, ch.int(16)]))
    steps = None
    if two:
        cfg["steps"] = ch.pick([-1, 3, 1000, 1])
        steps = len(texts[1]) if cfg["steps"] < 0 or cfg["steps"] > len(texts[1]) else cfg["steps"]
    text2 = texts[1] if steps is None else texts[1][:steps]
    args = ch.shuffle(["%s=%s" % (k, v) for k, v in cfg.items()])
    clock = SimClock(wall=1.6e9 + ch.int(10 ** 8))
    disk = Disk(ctx)
    dist = ch.pick(["uniform", "equal", "tiny", "heavy"])
    sel = [k for k in range(4) if cfg["mask"] >> k & 1]
    answers, spent, order_called = {}, {}, []
    est = {"ops": 10 + 11 * len(sel), "lines": 60 + 40 * len(sel), "calls": 11 * len(sel)}
    kind, at_line, fail_call = ("none", None, None) if jumpy else faults(ch, disk, est)
    exc = ch.pick(exceptions())
    ncalls = [0]

    def stub(k):
        def f(*a, **kw):
            disk.point("method")
            ctx.check(k in sel, "unselected", lambda: "%s mask=%d ran %s" % (rel, cfg["mask"], TEXT_METHODS[k]))
            if k not in order_called:
                order_called.append(k)
                ctx.step("method", "text", k)
            if ncalls[0] == fail_call:
                ctx.fault("method_" + type(exc).__name__)
                raise exc
            ncalls[0] += 1
            if jumpy and ch.chance(0.1):
                delta = ch.pick([-3600.0, 3600.0, -0.5, 0.01, -86400.0 * 30])
                clock.step_wall(delta)
                ctx.fault("wall_clock_back" if delta < 0 else "wall_clock_forward")
                ctx.step("wall", ncalls[0], delta)
            c = duration(rs, dist) * (30.0 if k not in answers else 1.0)
            clock.advance(c)
            spent.setdefault(k, []).append(c)
            if k not in answers:
                idx = [letters.index(x) for x in text2]
                wrong = 0
                for i in range(len(idx)):
                    if rs.rand() < 0.3:
                        idx[i] = (idx[i] + 1 + rs.randint(26)) % 27
                        wrong += 1
                answers[k] = (tf.constant([0] + idx, tf.int32), wrong / len(idx))
            return answers[k][0], tf.zeros((1, 1), tf.float64)
        return f
    swap, undo = {}, []
    for k, n in enumerate(TEXT_METHODS):
        f = getattr(mod("viterbi_tf"), n)
        swap[id(f)] = stub(k)
    for mn, mm in list(sys.modules.items()):
        if mm is not None and mn.startswith("parallel_control."):
            for a, v in list(vars(mm).items()):
                if id(v) in swap:
                    undo.append((mm, a, v))
                    setattr(mm, a, swap[id(v)])
    keep = {"res/notes.md": b"keep\n", "res/ge_viterbi_seq_fwbw_cpu_mc.txt": b"100 1.5 0.0\n"}
    seed = ch.seed()
    state = np.random.get_state(), random.getstate()
    ctx.step("process", rel, kind, *args)
    try:
        for i, t in enumerate(texts):
            keep["../notebooks/text%d.txt" % (i + 1)] = t.encode()
        for f, d in keep.items():
            with open("%s/%s" % (disk.cwd, f), "wb") as h:
                h.write(d)
        np.random.seed(seed)
        random.seed(seed)
        with Eager(), TimePatched(clock):
            try:
                status, e = run_script(rel, args, disk, at_line)
            except Outside as x:
                ctx.check(False, "outside", "%s changes a path outside its directory: %s" % (rel, x))
        if isinstance(e, Violation):
            raise e
        ctx.sim_time += clock.now
        ctx.step("ended", status, len(order_called))
        files = disk.files()
        for f, d in keep.items():
            ctx.check(files.get(f) == d, "touched", lambda: "%s (%s): file %s changed" % (rel, status, f))
        if status == "error" and kind == "none":
            raise e
        if status != "ok":
            return
        ctx.check(sorted(order_called) == sel, "not-run", lambda: "%s mask=%d ran %s" % (rel, cfg["mask"], order_called))
        base = "res/text_%d_%s" % (order, dev_text(cfg)) if not two else "res/text_steps_%d_%d_%s" % (order, steps, dev_text(cfg))
        rows = [tuple([k + 1, order] + ([steps] if two else []) + [sum(spent[k][1:]) / (len(spent[k]) - 1), answers[k][1]]) for k in sel]
        conf = [f for f in files if f.startswith("res/text") and f.endswith("_config.txt")]
        ctx.check(base + ".txt" in files and len(conf) == 1, "lost-file", lambda: "%s: no %s among %s" % (rel, base, sorted(files)))
        same_rows(ctx, rel, base + ".txt", files[base + ".txt"], rows)
        try:
            c = ast.literal_eval(files[conf[0]].decode())
        except Exception:
            c = None
        ctx.check(c == cfg, "config", lambda: "%s: config file holds %r, the settings were %r" % (rel, c, cfg))
    finally:
        np.random.set_state(state[0])
        random.setstate(state[1])
        for mm, a, v in reversed(undo):
            setattr(mm, a, v)
        disk.destroy()


@scenario("C16", "text", quick=400, thorough=10000, chunk=40, needs=("tf", "speed"), cpu_limit=120)
def text(ctx):
    """The two text correction scripts, with crashes, failing methods and file operations."""
    ctx.real.update(REAL)
    ctx.sut("text experiment", text_experiment, ctx, False)
