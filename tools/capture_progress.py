"""What every optimizer achieves on the easy problems of mon/progress.py (spec/progress.json), with the floors C28 demands.  usage: capture_progress.py RUNS"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MEALPY_ROOT", "/repo")
sys.path[:0] = [os.environ["MEALPY_ROOT"], ROOT]
from multiprocessing import Pool
import numpy as np
from mon import gen, progress
N = int(sys.argv[1]) if len(sys.argv) > 1 else 40


def one(a):
    out = {}
    for pr in progress.PROBLEMS:
        for mm in ("min", "max"):
            rs = [progress.one(a, pr, mm, 5000 + s)[0] for s in range(N)]
            rs = [r for r in rs if r is not None]
            if len(rs) < N * 0.9:
                continue
            g = np.array([r["gain"] for r in rs])
            rng = np.random.default_rng(0)
            med = [float(np.median(rng.choice(g, 5))) for _ in range(2000)]
            out[f"{pr}:{mm}"] = {"improved": float(np.mean([r["improved"] for r in rs])), "gain": float(np.median(g)), "low": float(np.min(med)),
                                 "fresh": float(np.mean([r["fresh"] / max(1, r["epochs"]) for r in rs])), "fresh_low": float(np.min([r["fresh"] / max(1, r["epochs"]) for r in rs]))}
    return a, out


if __name__ == "__main__":
    with Pool(8) as pool:
        res = dict(pool.imap_unordered(one, gen.ALGOS, chunksize=1))
    json.dump(res, open(os.path.join(ROOT, "spec", "progress.json"), "w"), indent=0, sort_keys=True)
    for a in sorted(res):
        for k, v in res[a].items():
            if v["improved"] < 0.9 or v["fresh_low"] < 0.5:
                print(a, k, {x: round(y, 3) for x, y in v.items()})
