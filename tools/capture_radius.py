"""Writes spec/radius.json: the least and the largest search radius (median of five runs) late in a run.  usage: capture_radius.py FIRST_SEED N_GROUPS"""
import json, multiprocessing as mp, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MEALPY_ROOT", "/repo"), ROOT]
import numpy as np
from mon import gen, progress


def one(t):
    a, pr, first, k = t
    out = []
    for g in range(k):
        rng = gen.rng_for(first + g, "radius", a, pr)
        v = []
        for s in rng.integers(0, 2 ** 31 - 1, 5):
            x, _ = progress.one(a, pr, "min" if g % 2 else "max", int(s))
            if x is not None and x["radius"] is not None:
                v.append(x["radius"])
        if len(v) >= 4:
            out.append(float(np.median(v)))
    return a, pr, out


if __name__ == "__main__":
    first, k = int(sys.argv[1]), int(sys.argv[2])
    res = {}
    with mp.Pool(int(os.environ.get("N", "8")), maxtasksperchild=20) as p:
        for a, pr, v in p.imap_unordered(one, [(a, pr, first, k) for pr in ("long3", "sphere3") for a in gen.ALGOS]):
            if v:
                res.setdefault(a, {})[pr] = [round(min(v), 3), round(max(v), 3), len(v)]
    json.dump({a: res[a] for a in sorted(res)}, open(os.path.join(ROOT, "spec", "radius.json"), "w"), indent=0)
