"""Batch runner: forks one fresh process per chunk of seeded runs, aggregates, minimises, replays, reports."""

import collections
import gc
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, loader
from .core import HarnessError, SCENARIOS, derive_seed, run_once, minimise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def _child(fn, wfd):
    """Runs fn in a forked child and ships its pickled result through wfd."""
    code = 0
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        if not os.environ.get("VERIF_CHILD_OUTPUT"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        try:
            res = ("ok", fn())
        except BaseException as e:
            res = ("err", "".join(traceback.format_exception(e))[-4000:])
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:
        code = 3
    os._exit(code)


def run_forked(jobs, workers, deadline=None, on_result=None):
    """jobs: list of (key, fn).  Runs each in its own forked process, at most `workers` at a time.
    Yields (key, status, payload) in completion order; stops starting jobs after `deadline`."""
    pending = collections.deque(jobs)
    running = {}
    out = []
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            if deadline is not None and time.time() > deadline:
                stop = True
                break
            key, fn = pending.popleft()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in running:
                    os.close(fd)
                _child(fn, w)
            os.close(w)
            running[r] = (key, pid, [])
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 5.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            key, pid, buf = running[fd]
            if data:
                buf.append(data)
                continue
            os.close(fd)
            del running[fd]
            _, st = os.waitpid(pid, 0)
            raw = b"".join(buf)
            if raw:
                try:
                    status, payload = pickle.loads(raw)
                except Exception as e:
                    status, payload = "err", "unreadable child result: %r" % (e,)
            else:
                status, payload = "err", "child died with status %d" % st
            item = (key, status, payload)
            out.append(item)
            if on_result is not None and on_result(item):
                stop = True
                pending.clear()
    return out, stop or bool(pending)


def chunk_job(scn, base, indices, tier, stop_on_violation=True):
    def fn():
        gc.disable()
        res = {"scn": scn.name, "n": 0, "viol": [], "harness": [], "faults": collections.Counter(),
               "probes": collections.Counter(), "sim": 0.0, "sched": set(), "nontrivial": 0, "samples": [],
               "real": set(), "stub": set(), "hashes": [], "steps": 0, "cpu": 0.0, "maxcpu": 0.0,
               "maxerr": {}}
        for j, i in enumerate(indices):
            seed = derive_seed(base, scn.prop, scn.name, i)
            o = run_once(scn, seed=seed, tier=tier, keep_trace=(j == 0))
            res["n"] += 1
            res["faults"].update(o.faults)
            res["probes"].update(o.probes)
            res["sim"] += o.sim_time
            res["steps"] += o.sched_len
            res["cpu"] += o.cpu
            res["maxcpu"] = max(res["maxcpu"], o.cpu)
            if o.sched_len >= 2:
                res["sched"].add(o.sched_hash)
                res["nontrivial"] += 1
            for k, v in o.info.items():
                if k.startswith("maxerr:"):
                    res["maxerr"][k[7:]] = max(res["maxerr"].get(k[7:], 0.0), v)
            res["real"].update(o.real)
            res["stub"].update(o.stub)
            res["hashes"].append((i, o.trace_hash))
            if j == 0:
                res["samples"].append({"scenario": scn.name, "index": i, "seed": seed, "outcome": o.kind,
                                       "info": o.info, "trace": o.trace[:40], "trace_events": len(o.trace)})
            if o.kind == "violation":
                res["viol"].append({"index": i, "seed": seed, "cls": o.cls, "msg": o.msg, "choices": o.choices,
                                    "history": list(indices[:j]), "trace_hash": o.trace_hash})
                if stop_on_violation:
                    break
            elif o.kind == "harness":
                res["harness"].append({"index": i, "seed": seed, "cls": o.cls, "msg": o.msg})
                break
            if j % 16 == 15:
                gc.collect()
        return res
    return fn


def load_known():
    """Lines `known: {json}` (suppress exactly what they identify) and `fixed: ...` (suppress nothing)."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                out.append(json.loads(line[6:]))
    return out


def run_property(prop, tier, base_seed, workers=None, only=None, scale=1.0, budget=None, verbose=False):
    t_start = time.time()
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or (os.cpu_count() or 4)
    scns = [s for (p, n), s in SCENARIOS.items() if p == prop and (only is None or n in only)]
    if not scns:
        print("no scenarios for %s" % prop)
        return 2
    needs = set()
    for s in scns:
        needs.update(s.needs)
    loader.load(needs)
    t_loaded = time.time()
    if budget is None:
        budget = 780 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3600"))
    deadline = t_start + budget
    print("check %s tier=%s VERIF_SEED=%s workers=%d scenarios=%s" %
          (prop, tier, base_seed, workers, ",".join(s.name for s in scns)), flush=True)
    jobs = []
    planned = 0
    per = []
    for s in scns:
        wanted = s.quick if tier == "quick" else s.thorough
        if wanted == 0:
            continue
        total = int(max(1, wanted * scale))
        planned += total
        ch = []
        for k in range(0, total, s.chunk):
            idx = list(range(k, min(total, k + s.chunk)))
            ch.append(((s.name, k), chunk_job(s, base_seed, idx, tier)))
        per.append(collections.deque(ch))
    # interleave the scenarios so that a budget stop leaves all of them explored
    ratio = [len(p) for p in per]
    mx = max(ratio)
    for step in range(mx):
        for p, r in zip(per, ratio):
            want = (step + 1) * r // mx - step * r // mx
            for _ in range(want):
                if p:
                    jobs.append(p.popleft())
    for p in per:
        jobs.extend(p)

    agg = {"n": 0, "viol": [], "harness": [], "faults": collections.Counter(), "probes": collections.Counter(),
           "sim": 0.0, "sched": set(), "nontrivial": 0, "samples": [], "real": set(), "stub": set(), "steps": 0,
           "per": collections.Counter(), "cpu": 0.0, "maxcpu": 0.0, "percpu": collections.Counter(), "maxerr": {}}
    errs = []
    known = [k for k in load_known() if k.get("property") == prop]

    def on_result(item):
        key, status, r = item
        if status != "ok":
            errs.append((key, r))
            return len(errs) >= 3
        for f in ("n", "sim", "nontrivial", "steps", "cpu"):
            agg[f] += r[f]
        agg["maxcpu"] = max(agg["maxcpu"], r["maxcpu"])
        agg["per"][r["scn"]] += r["n"]
        agg["percpu"][r["scn"]] += r["cpu"]
        agg["faults"].update(r["faults"])
        agg["probes"].update(r["probes"])
        for k, v in r["maxerr"].items():
            agg["maxerr"][k] = max(agg["maxerr"].get(k, 0.0), v)
        agg["sched"] |= r["sched"]
        agg["real"] |= r["real"]
        agg["stub"] |= r["stub"]
        if sum(1 for s in agg["samples"] if s["scenario"] == r["scn"]) < 2:
            agg["samples"].extend(r["samples"])
        for v in r["viol"]:
            v["scn"] = r["scn"]
            agg["viol"].append(v)
        for h in r["harness"]:
            h["scn"] = r["scn"]
            agg["harness"].append(h)
        return bool(agg["viol"]) or len(agg["harness"]) >= 3

    run_forked(jobs, workers, deadline, on_result)
    t_explored = time.time()

    code = 0
    replay_path = None
    nviol = 0
    if agg["viol"]:
        agg["viol"].sort(key=lambda v: (v["scn"], v["index"]))
        code, replay_path = report_violation(prop, tier, base_seed, agg["viol"][0], needs, verbose)
        nviol = len(agg["viol"])
    elif errs or agg["harness"]:
        for key, e in errs[:2]:
            print("HARNESS-ERROR chunk %s: %s" % (key, e), flush=True)
        for h in agg["harness"][:2]:
            print("HARNESS-ERROR %s seed=%d: %s" % (h["scn"], h["seed"], h["msg"]), flush=True)
        code = 2
    elif agg["n"] < 0.25 * planned and tier == "quick":
        print("HARNESS-ERROR only %d of %d planned runs finished within the %d s budget" % (agg["n"], planned, budget))
        code = 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", "")), flush=True)

    wall = time.time() - t_start
    explore_s = max(t_explored - t_loaded, 1e-6)
    nontriv = len(agg["sched"])
    ev = {
        "property": prop, "tier": tier, "seed": int(base_seed), "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": nontriv,
            "rule": "one evaluation = one seeded simulated run (problem, schedule, faults all drawn from the seed); "
                    "non-trivial = its schedule trace has at least two scheduling/fault/operation events; distinct = "
                    "distinct SHA-256 of that schedule trace (task starts/completions, thread switches, fault and "
                    "operation events in order, with their scenario), numeric data excluded",
            "samples": agg["samples"][:8],
            "planned_runs": planned,
            "runs_per_scenario": dict(agg["per"]),
            "cpu_s_per_scenario": {k: round(v, 2) for k, v in agg["percpu"].items()},
            "runs_per_hour": int(agg["n"] / explore_s * 3600),
            "seeds_per_hour": int(agg["n"] / explore_s * 3600),
            "simulated_seconds": round(agg["sim"], 3),
            "schedule_events": agg["steps"],
            "nontrivial_runs": agg["nontrivial"],
            "distinct_interleavings": nontriv,
            "distinct_interleavings_measure": "SHA-256 of the schedule trace",
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "components_real": sorted(agg["real"]),
            "components_stubbed": sorted(agg["stub"]),
            "largest_relative_differences": {k: float("%.3g" % v) for k, v in sorted(agg["maxerr"].items())},
            "workers": workers,
            "max_run_cpu_s": round(agg["maxcpu"], 2),
            "base_seed_rule": "run seed = SHA-256(VERIF_SEED|property|scenario|index)[:8]",
        },
        "assumptions": ["numeric comparisons use tolerances stated in DESIGN.md",
                        "BLAS, LAPACK, NumPy, SciPy, JAX/XLA and TensorFlow kernels run for real on one thread",
                        "a clean batch is sampled evidence, not proof"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    print("%s: %d runs, %d distinct schedules, %d schedule events, %.1f simulated s, faults %s, wall %.1f s, %s" %
          (prop, agg["n"], nontriv, agg["steps"], agg["sim"], dict(sorted(agg["faults"].items())), wall,
           {0: "held", 1: "VIOLATED", 2: "HARNESS ERROR"}[code]), flush=True)
    if verbose:
        print(json.dumps({"per": dict(agg["per"]), "cpu": dict(agg["percpu"]), "probes": dict(agg["probes"]),
                          "maxerr": agg["maxerr"]}, indent=1))
    return code


def report_violation(prop, tier, base_seed, v, needs, verbose):
    scn = SCENARIOS[(prop, v["scn"])]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["scn"], v["index"]))

    def base_doc():
        return {"property": prop, "scenario": v["scn"], "tier": tier, "verif_seed": str(base_seed), "run_seed": v["seed"],
                "index": v["index"], "violation_class": v["cls"], "history": [], "choices": v["choices"],
                "original_choices": len(v["choices"])}

    def do_min():
        best, n = minimise(scn, v["choices"], v["cls"], tier)
        o = run_once(scn, replay=best, tier=tier, keep_trace=True)
        return best, n, o.kind, o.cls, o.msg, o.trace_hash, o.trace

    candidates = []
    res, _ = run_forked([("min", do_min)], 1)
    _, st, payload = res[0]
    if st == "ok":
        best, n, kind, cls, msg, th, trace = payload
        if kind == "violation" and cls == v["cls"]:
            d = base_doc()
            d.update(choices=best, minimised=True, minimiser_runs=n, trace_hash=th, message=msg, trace=trace)
            candidates.append(d)
    d = base_doc()
    d.update(minimised=False, trace_hash=v["trace_hash"], message=v["msg"])
    candidates.append(d)
    if v["history"]:
        d = base_doc()
        d.update(minimised=False, trace_hash=v["trace_hash"], message=v["msg"], history=v["history"])
        candidates.append(d)
    ok = False
    for d in candidates:
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        r = subprocess.run([PY, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True,
                           timeout=600)
        if r.returncode == 1 and "REPRODUCED" in r.stdout:
            ok = True
            break
    if not ok and v["cls"] == "no-progress":
        print("HARNESS-ERROR %s seed=%d: CPU limit exceeded but not reproducible" % (v["scn"], v["seed"]))
        return 2, path
    d["reproduced_in_fresh_process"] = ok
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    print("violation class: %s" % d["violation_class"])
    print("message: %s" % d.get("message", ""))
    print("seed: VERIF_SEED=%s scenario=%s index=%d run_seed=%d" % (base_seed, v["scn"], v["index"], v["seed"]))
    print("choices: %d minimised to %d; replay in a fresh process: %s" %
          (len(v["choices"]), len(d["choices"]), "reproduced exactly" if ok else "NOT reproduced"))
    for line in (d.get("trace") or [])[:30]:
        print("  | " + line)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1, path


def replay_file(path, verbose=True):
    d = json.load(open(path))
    scn = SCENARIOS[(d["property"], d["scenario"])]
    needs = set()
    for (p, n), s in SCENARIOS.items():
        if p == d["property"]:
            needs.update(s.needs)
    loader.load(needs)

    def fn():
        for i in d.get("history", []):
            run_once(scn, seed=derive_seed(d["verif_seed"], d["property"], d["scenario"], i), tier=d["tier"])
        o = run_once(scn, replay=d["choices"], tier=d["tier"], keep_trace=True)
        return o.kind, o.cls, o.msg, o.trace_hash, o.trace
    res, _ = run_forked([("replay", fn)], 1)
    _, st, payload = res[0]
    if st != "ok":
        print("HARNESS-ERROR", payload)
        return 2
    kind, cls, msg, th, trace = payload
    if verbose:
        for line in trace:
            print("  | " + line)
        print("outcome: %s %s %s" % (kind, cls, msg))
    if kind == "violation":
        same = cls == d["violation_class"] and th == d["trace_hash"]
        print("REPRODUCED exactly" if same else "violation, but different: class %s trace %s" % (cls, th[:12]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if kind == "harness":
        print("HARNESS-ERROR", msg)
        return 2
    print("not reproduced: the property held")
    return 0


def hashes(prop, base_seed, lo, hi, workers, tier="quick", only=None):
    """Trace hashes of runs lo..hi of each scenario (for the determinism self-test)."""
    scns = [s for (p, n), s in SCENARIOS.items() if p == prop and (only is None or n in only)]
    needs = set()
    for s in scns:
        needs.update(s.needs)
    loader.load(needs)
    jobs = []
    for s in scns:
        for k in range(lo, hi, s.chunk):
            idx = list(range(k, min(hi, k + s.chunk)))
            jobs.append(((s.name, k), chunk_job(s, base_seed, idx, tier, stop_on_violation=False)))
    res, _ = run_forked(jobs, workers)
    out = {}
    for key, st, r in res:
        if st != "ok":
            out["ERR %s" % (key,)] = r
            continue
        for i, h in r["hashes"]:
            out["%s/%d" % (r["scn"], i)] = h
    return out
