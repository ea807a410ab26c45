#!/usr/bin/env python3
"""Entry point of every check.

  check.py C01 [--tier quick|thorough] [--seed N] [--only scenario,...] [--scale X] [-v]
  check.py --replay FILE
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def bootstrap():
    sys.path.insert(0, HERE)
    from dst import loader
    if os.environ.get("VERIF_BOOT") != "1":
        loader.prepare_env()
        os.environ["VERIF_BOOT"] = "1"
        os.environ.setdefault("PYTHONHASHSEED", "0")
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(PY, [PY, os.path.join(HERE, "check.py")] + sys.argv[1:])
    loader.prepare_env()


def main():
    bootstrap()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--hashes", help="LO:HI, print the trace hashes of these runs (determinism self-test)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from dst import runner, core
    import json
    import importlib
    if a.replay:
        a.prop = json.load(open(a.replay))["property"]
    importlib.import_module("dst.scen." + a.prop.lower())
    try:
        if a.replay:
            sys.exit(runner.replay_file(a.replay))
        if a.hashes:
            lo, hi = a.hashes.split(":")
            print(json.dumps(runner.hashes(a.prop, a.seed, int(lo), int(hi), a.workers or 8,
                                           only=a.only.split(",") if a.only else None), sort_keys=True))
            sys.exit(0)
        sys.exit(runner.run_property(a.prop, a.tier, a.seed, a.workers, a.only.split(",") if a.only else None,
                                     a.scale, verbose=a.v))
    except core.HarnessError as e:
        print("HARNESS-ERROR %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
