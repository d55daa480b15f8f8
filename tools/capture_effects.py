"""For every hyper-parameter: a pair of values for which seeded runs differ (spec/effects.json).  C18 demands that they still do."""
import json, os, sys, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from multiprocessing import Pool
import numpy as np
from mon import engine as E, gen, oracles as Q
from checks.c18 import ranges, inside
from mon.pair import quiet

CFG = [(20, 6, 3), (30, 12, 2), (24, 30, 3), (20, 60, 2), (30, 150, 2)]


def digest(a, params, pop, epoch, dim, seed, obj, mm):
    c = {"algo": a, "pop_size": pop if "pop_size" in gen.SPEC[a]["defaults"] else None, "epoch": epoch, "space": [{"kind": "float", "lb": [-10.0] * dim, "ub": [14.0] * dim}], "obj": obj,
         "minmax": mm, "seed": seed, "mode": "single", "budget": 60000, "params": params}
    tr = E.run_case(c, keep_pops=False, cpu_limit=20)
    return Q.trace_digest(tr) if tr.finished else None


def one(a):
    rng = np.random.default_rng(7)
    s = gen.SPEC[a]
    out, none = {}, []
    with quiet():
        for p, chk in s["checks"].items():
            if p in ("epoch", "pop_size"):
                continue
            hit = None
            for k, (pop, epoch, dim) in enumerate(CFG + CFG[:3] + CFG[:3]):
                ctx = s["pop_bounds"].get(p, {}).get(str(pop)) or s["ep_bounds"].get(p, {}).get(str(epoch)) or chk
                rs = ranges(ctx)
                base = gen.random_params(np.random.default_rng(k), a, pop, "fit" if k < 3 else "random", epoch)
                if a == "OriginalRFO" and p == "theta":
                    base["phi_0"] = 0.0
                if rs:
                    vals = [v for x in rs for v in inside(rng, *x)]
                    d = base.get(p, s["defaults"][p])
                    if isinstance(d, (int, float)):
                        vals = sorted(vals, key=lambda v: abs(v - d), reverse=True)
                        lim = [v for v in vals if not (isinstance(v, int) and v > 200)]
                        vals = [d] + lim
                    if p == "t0":
                        vals = [500, 2000]
                elif chk["method"] == "check_str":
                    vals = list(chk["bounds"][0]["v"])
                elif chk["method"] == "check_bool":
                    vals = [True, False]
                else:
                    continue
                for seed in (1, 2):
                    for obj, mm in (("rastrigin", "min"), ("negative", "max"), ("huge", "min")):
                        ref = None
                        for v in vals[:6]:
                            try:
                                d = digest(a, dict(base, **{p: v}), pop, epoch, dim, seed, obj, mm)
                            except Exception:
                                d = None
                            if d is None:
                                continue
                            if ref is None:
                                ref = (v, d)
                            elif Q.diff_digest(ref[1], d):
                                hit = {"pop": pop, "epoch": epoch, "dim": dim, "obj": obj, "mm": mm, "base": base, "a": ref[0], "b": v, "seed": seed}
                                break
                        if hit:
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit:
                out[p] = [dict(hit, seed=hit["seed"] + 1000 * i) for i in range(3)]
            else:
                none.append(p)
                v = vals[:1] + vals[-1:]
                out[p] = [{"pop": 20, "epoch": 6, "dim": 3, "obj": "rastrigin", "mm": "min", "base": {k: x for k, x in base.items() if k not in ("epoch", "pop_size")}, "a": v[0], "b": v[1], "seed": i + 1} for i in range(3)]
    return a, out, none


if __name__ == "__main__":
    with Pool(8) as pool:
        res = pool.map(one, gen.ALGOS, chunksize=2)
    spec = {a: o for a, o, _ in res}
    json.dump(spec, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "effects.json"), "w"), indent=0, sort_keys=True)
    print(sum(len(o) for _, o, _ in res), "effects;", "without:", {a: n for a, _, n in res if n})
