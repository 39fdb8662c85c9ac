#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] | check.py ID --replay FILE"""
import argparse
import os
import sys
import traceback

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--selftest", action="store_true")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    parser.add_argument("--replay")
    parser.add_argument("--worker", type=int)
    parser.add_argument("--cases", type=int)
    parser.add_argument("--wall", type=float)
    parser.add_argument("--out")
    args = parser.parse_args()
    if args.selftest:
        return core.selftest()
    if args.replay:
        return core.replay(args.property, args.replay)
    if args.worker is not None:
        core.worker(args.property, args.tier, args.seed, args.worker, args.cases, args.wall, args.out)
        return 0
    return core.main(args.property, args.tier, args.seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2  # the check itself failed: neither "held" nor "violated"
    sys.stdout.flush()
    sys.exit(code)
