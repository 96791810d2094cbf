"""run.py PROPERTY [--tier quick|thorough] [--part NAME] [--scale X] [--seed N] [-v]
   run.py --replay FILE
   run.py --setup"""
import argparse
import json
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "hypothesis")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import build  # noqa: E402
import core   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--part", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.setup:
        build.ensure_extension()
        build.load()
        return 0
    build.load()
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        part = {p.name: p for p in core.module(rep["property"]).PARTS}[rep["part"]]
        text = json.dumps(rep["case"], sort_keys=True)
        msg = core.crashes(part, text)
        if msg is None:
            print("the case passes")
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(args.replay)))
        return 1
    status, ev = core.check(args.property, args.tier, args.seed, args.part, args.scale, args.jobs)
    c = ev["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s" % (
        args.property, args.tier, args.seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"],
        {0: "held", 1: "VIOLATED", 2: "ERROR"}[status]))
    if args.v:
        for n, d in c["parts"].items():
            print("  %-28s %6d cases %6d nontrivial %5d skipped %6.1f s  %s" % (
                n, d["evaluations"], d["distinct_nontrivial"], d["skipped"], d["cpu_s"], d["labels"]))
    return status


if __name__ == "__main__":
    sys.exit(main())
