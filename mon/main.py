import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--dump")
    a = ap.parse_args()
    from . import core
    mod = importlib.import_module(f"checks.{a.id.lower()}")
    check = mod.CHECK
    sys.exit(core.main(check, a.tier, a.seed, a.replay, a.dump))


if __name__ == "__main__":
    main()
