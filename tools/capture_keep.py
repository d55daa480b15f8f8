"""Writes spec/keep.json: for each optimizer whether, in every one of many runs of the tree under study, its population kept the best solution found so far (elitist),
none of its ranks ever got worse (monotone), and the sizes it may have.  usage: capture_keep.py FIRST_SEED N_SEEDS"""
import collections, json, multiprocessing as mp, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MEALPY_ROOT", "/repo"), ROOT]
from mon import engine as E, keep, gen
from checks.c30 import CHECK


def one(case):
    try:
        tr = E.run_case(case, keep_pops=False, cpu_limit=25)
    except Exception:
        return None
    if not tr.epochs or not tr.finished:
        return None
    n, lost, sunk, sizes = keep.facts(tr)
    want = getattr(tr.model, "pop_size", None)
    return case["algo"], n, bool(lost), bool(sunk), sizes == {case["pop_size"]} if case.get("pop_size") else None, sorted(sizes), case.get("pop_size"), want


if __name__ == "__main__":
    first, k = int(sys.argv[1]), int(sys.argv[2])
    out = collections.defaultdict(lambda: {"runs": 0, "epochs": 0, "lost": 0, "sunk": 0, "size_other": 0, "size_example": None})
    with mp.Pool(int(os.environ.get("N", "8")), maxtasksperchild=300) as p:
        for s in range(first, first + k):
            for r in p.imap_unordered(one, CHECK.cases(s, "quick"), chunksize=8):
                if r:
                    o = out[r[0]]
                    o["runs"] += 1
                    o["epochs"] += r[1]
                    o["lost"] += r[2]
                    o["sunk"] += r[3]
                    if r[4] is False:
                        o["size_other"] += 1
                        o["size_example"] = o["size_example"] or [r[6], r[5]]
            print(s, flush=True)
    json.dump({a: out[a] for a in sorted(out)}, open(os.path.join(ROOT, "spec", "keep.json"), "w"), indent=0)
    print("elitist", sum(not o["lost"] for o in out.values()), "monotone", sum(not o["sunk"] for o in out.values()), "rare", [(a, o["lost"], o["sunk"], o["runs"]) for a, o in out.items() if 0 < o["lost"] <= 3 or 0 < o["sunk"] <= 3])
    print("sizes", [(a, o["size_other"], o["size_example"]) for a, o in out.items() if o["size_other"]])
