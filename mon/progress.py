"""How far a seeded run gets on an easy problem, and whether it uses its epochs."""
import numpy as np
from . import engine as E, gen

PROBLEMS = {
    "sphere3": ([{"kind": "float", "lb": [-10.0, -10.0, -10.0], "ub": [14.0, 14.0, 14.0]}], "sphere", 20, 15),
    "rastrigin5": ([{"kind": "float", "lb": [-6.0] * 5, "ub": [5.0] * 5}], "rastrigin", 24, 12),
    "mixed4": ([{"kind": "float", "lb": [-10.0, -4.0], "ub": [10.0, 8.0]}, {"kind": "int", "lb": [-20, -8], "ub": [12, 30]}], "sphere", 20, 12),
    "long3": ([{"kind": "float", "lb": [-10.0, -10.0, -10.0], "ub": [14.0, 14.0, 14.0]}], "rastrigin", 15, 40),
}


def radius(evals, epochs):
    """Decimal logarithm of the spread of the candidates tried in an epoch, relative to the box: the median over the last quarter of the epochs."""
    per = {}
    for x, _, p in evals:
        if p > 0.75 * epochs:
            per.setdefault(p, []).append(np.asarray(x, float))
    s = [float(np.median(np.std(np.array(v), axis=0))) / 24.0 for v in per.values() if len(v) >= 2]
    return float(np.log10(np.median(s) + 1e-16)) if s else None


def one(algo, problem, mm, seed, mode="single", cpu_limit=25):
    """None when the run did not end; otherwise (gain in decades, improved, epochs with new vectors, epochs)."""
    space, obj, pop, epoch = PROBLEMS[problem]
    s = gen.SPEC[algo]
    c = {"algo": algo, "pop_size": pop if "pop_size" in s["defaults"] else None, "epoch": epoch, "space": space, "obj": obj, "minmax": mm, "sign": 1.0 if mm == "min" else -1.0,
         "mode": mode, "seed": int(seed), "budget": 60000, "params": gen.random_params(np.random.default_rng(0), algo, pop, "fit", epoch)}
    tr = E.run_case(c, keep_pops=False, cpu_limit=cpu_limit)
    if not tr.finished:
        return None, tr
    sgn = c["sign"]
    f = [sgn * float(np.ravel(v)[0]) for _, v, _ in tr.obj.evals]
    ph = [e[2] for e in tr.obj.evals]
    init = min(v for v, p in zip(f, ph) if p < 1)
    later = [v for v, p in zip(f, ph) if p >= 1]
    end = sgn * tr.g_best.target.fitness
    seen, fresh = set(), set()
    for x, _, p in tr.obj.evals:
        k = np.asarray(x, float).tobytes()
        if k not in seen:
            seen.add(k)
            if p >= 1:
                fresh.add(p)
    gain = float(np.log10((init + 1e-9) / (max(end, 0.0) + 1e-9)))
    return {"gain": gain, "improved": bool(end < init), "fresh": len(fresh), "epochs": len(tr.epochs), "later": len(later), "radius": radius(tr.obj.evals, len(tr.epochs))}, tr
