"""For every optimizer: how its runs on min f and max -f compare (spec/mirror.json).  usage: capture_mirror.py RUNS"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MEALPY_ROOT", "/repo")
sys.path[:0] = [os.environ["MEALPY_ROOT"], ROOT]
from multiprocessing import Pool
from mon import gen, mirror
N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
OBJ = ["sphere", "rastrigin", "mixed", "negative"]


def one(a):
    bad = {"exact": 0, "first": 0, "swing": 0}
    n = 0
    for k in range(N):
        rng = gen.rng_for(990, "mirror", a, k)
        c = gen.base_case(rng, a, params="random" if k % 2 else "default", obj=OBJ[k % 4], minmax="min", mode=["single", "swarm"][k // 4 % 2])
        c["space"] = gen.mixed_space(rng) if k % 3 == 2 else [gen.float_space(rng, int(rng.integers(1, 6)))]
        p, q = mirror.pair(c)
        if p.model is None:
            continue
        n += 1
        d = mirror.differs(p, q)
        bad["exact"] += d is not None
        if d is not None:
            bad["first"] += mirror.differs_first(p, q) is not None
        p, q = mirror.pair(dict(c, obj="swing"))
        bad["swing"] += mirror.differs_first(p, q) is not None
    return a, n, bad


if __name__ == "__main__":
    out = {}
    with Pool(8) as pool:
        for a, n, bad in pool.imap_unordered(one, gen.ALGOS):
            kind = next((k for k in ("exact", "first", "swing") if bad[k] == 0), None)
            if n < N // 2:
                print(a, "few runs", n)
            if kind:
                out[a] = kind
            if kind != "exact":
                print(a, n, bad, kind, flush=True)
    json.dump(out, open(os.path.join(ROOT, "spec", "mirror.json"), "w"), indent=0, sort_keys=True)
    print(len(out))
