"""Writes spec/share.json: the least share any variable and any place of the population had in the tree under study, and whether every epoch made one objective call per agent.
usage: capture_share.py FIRST_SEED N_SEEDS"""
import collections, json, multiprocessing as mp, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MEALPY_ROOT", "/repo"), ROOT]
from mon import share
from checks.c31 import CHECK


def one(case):
    f = share.facts(case)
    if not f["runs"]:
        return None
    return case["algo"], case["pop_size"], f["least"], share.ratio(f["cols"]), share.ratio(f["slots"]), f["epochs"], case["mode"], None if f["slots"] is None else f["slots"].tolist(), f["cols"].tolist()


if __name__ == "__main__":
    first, k = int(sys.argv[1]), int(sys.argv[2])
    out = collections.defaultdict(lambda: {"groups": 0, "vars": None, "agents": None, "full": True, "least_calls": None, "rare_agents": None})
    with mp.Pool(int(os.environ.get("N", "8")), maxtasksperchild=100) as p:
        for s in range(first, first + k):
            for r in p.imap_unordered(one, CHECK.cases(s, "quick"), chunksize=4):
                if not r:
                    continue
                o = out[r[0]]
                o["groups"] += 1
                q, m = r[3]
                if q is not None and m >= 45:
                    o["vars"] = q if o["vars"] is None else min(o["vars"], q)
                q, m = r[4]
                if q is not None and m >= 14:
                    if o["agents"] is None or q < o["agents"]:
                        o["agents"], o["rare_agents"] = q, [r[1], r[6], r[7]]
                if r[1]:
                    x = r[2] / r[1]
                    o["least_calls"] = x if o["least_calls"] is None else min(o["least_calls"], x)
                    if r[2] < r[1]:
                        o["full"] = False
            print(s, flush=True)
    json.dump({a: out[a] for a in sorted(out)}, open(os.path.join(ROOT, "spec", "share.json"), "w"), indent=0)
