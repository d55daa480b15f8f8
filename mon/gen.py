"""Workload generation.  Every case is a JSON-able dict; all randomness comes from the generator handed in."""
import json
import os
import zlib
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = json.load(open(os.path.join(ROOT, "spec", "params.json")))
ALGOS = sorted(SPEC)
POPS = [10, 11, 15, 20, 21, 24, 30, 33]


def rng_for(seed, *key):
    return np.random.default_rng([int(seed) & 0xffffffff] + [zlib.crc32(str(k).encode()) for k in key])


# ------------------------------------------------------------------ spaces
def float_space(rng, n=None, kind=None):
    n = n or int(rng.choice([1, 2, 3, 5, 8]))
    kind = kind or rng.choice(["sym", "shift", "neg", "mixed", "tiny", "wide", "unit"])
    if kind == "sym":
        lb, ub = [-10.0] * n, [10.0] * n
    elif kind == "shift":
        lb = [float(v) for v in np.round(rng.uniform(2, 4, n), 3)]
        ub = [float(l + w) for l, w in zip(lb, np.round(rng.uniform(1, 9, n), 3))]
    elif kind == "neg":
        ub = [float(v) for v in np.round(-rng.uniform(1, 3, n), 3)]
        lb = [float(u - w) for u, w in zip(ub, np.round(rng.uniform(1, 20, n), 3))]
    elif kind == "tiny":
        lb = [float(v) for v in np.round(rng.uniform(-1, 1, n), 4)]
        ub = [float(l + 1e-3) for l in lb]
    elif kind == "wide":
        lb, ub = [-1.0e4] * n, [2.5e4] * n
    elif kind == "unit":
        lb, ub = [0.0] * n, [1.0] * n
    else:
        lb = [float(v) for v in np.round(rng.uniform(-20, 5, n), 3)]
        ub = [float(l + w) for l, w in zip(lb, np.round(rng.uniform(0.5, 30, n), 3))]
    return {"kind": "float", "lb": lb, "ub": ub}


def int_var(rng, n=None):
    n = n or int(rng.integers(1, 5))
    lb = [int(v) for v in rng.integers(-8, 5, n)]
    ub = [int(l + w) for l, w in zip(lb, rng.integers(1, 12, n))]
    return {"kind": "int", "lb": lb, "ub": ub}


LABELS = ["auto", "bkd", "cosine", "dfs", "ell", "fast", "gini", "hist"]


def string_var(rng, kind="string"):
    if rng.random() < 0.5:
        return {"kind": kind, "sets": [str(v) for v in rng.permutation(LABELS)[:int(rng.integers(2, 7))]]}
    return {"kind": kind, "sets": [[str(v) for v in rng.permutation(LABELS)[:int(rng.integers(2, 7))]] for _ in range(int(rng.integers(1, 4)))]}


def cat_var(rng):
    pool = ["auto", 0.5, 10, None, "relu", 2, 7.25, "tanh", -3]
    k = int(rng.integers(2, 7))
    idx = rng.permutation(len(pool))[:k]
    return {"kind": "cat", "sets": [pool[i] for i in idx]}


def seq_var(rng):
    pool = [[1], [2, 3], [4, 5, 6], [], [7, 7], ["a", "b"]]
    k = int(rng.integers(2, 7))
    return {"kind": "seq", "sets": [pool[i] for i in rng.permutation(6)[:k]], "ret": str(rng.choice(["tuple", "list"]))}


def perm_var(rng):
    n = int(rng.integers(2, 7))
    base = [int(v) for v in rng.permutation(20)[:n]] if rng.random() < 0.6 else [str(v) for v in rng.permutation(LABELS)[:n]]
    return {"kind": "perm", "set": base}


def bin_var(rng):
    return {"kind": "bin", "n": int(rng.integers(1, 7))}


def bool_var(rng):
    return {"kind": "bool", "n": int(rng.integers(1, 6))}


TFS = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]


def tf_var(rng, kind="tfbin"):
    d = {"kind": kind, "n": int(rng.integers(2, 7)), "tf": str(rng.choice(TFS)), "lb": -8.0, "ub": 8.0}
    if kind == "tfbin":
        d["all_zeros"] = bool(rng.random() < 0.6)
    return d


MAKERS = {"float": float_space, "int": int_var, "string": string_var, "cat": cat_var, "seq": seq_var, "perm": perm_var,
          "bin": bin_var, "bool": bool_var, "tfbin": tf_var, "tfbool": lambda r: tf_var(r, "tfbool")}
DET_KINDS = ["float", "int", "string", "cat", "seq", "perm", "bin", "bool"]


def mixed_space(rng, kinds=None, k=None):
    kinds = kinds or list(MAKERS)
    k = k or int(rng.integers(2, 5))
    out = []
    for i in range(k):
        kind = str(rng.choice(kinds))
        v = float_space(rng, int(rng.integers(1, 4))) if kind == "float" else MAKERS[kind](rng)
        v["name"] = f"v{i}_{kind}"
        out.append(v)
    return out


def space_for(rng, flavour):
    if flavour == "float":
        return [float_space(rng)]
    if flavour == "mixed":
        return mixed_space(rng)
    if flavour == "mixed_det":
        return mixed_space(rng, DET_KINDS)
    if flavour in MAKERS:
        return [MAKERS[flavour](rng)]
    raise KeyError(flavour)


# ------------------------------------------------------------------ hyper-parameters
def _num(x):
    return float(x) if isinstance(x, str) else x


def sample_param(rng, chk, default):
    m, b = chk["method"], chk["bounds"]
    b = b[0] if b else None
    if m in ("check_bool",):
        return bool(rng.random() < 0.5)
    if m == "check_str":
        if b is None:
            return default
        return str(rng.choice(b["v"]))
    if m in ("check_int", "check_float") and b is not None and "v" in b:
        lo, hi = _num(b["v"][0]), _num(b["v"][1])
        opn = b["kind"] == "open"
        if not np.isfinite(lo) or not np.isfinite(hi):
            return default
        d = default if isinstance(default, (int, float)) and not isinstance(default, bool) else lo
        # keep loop-size parameters near the default, use the full range when it is narrow
        top = hi if hi - lo <= 20 else min(hi, max(abs(d) * 2.0, lo + 6))
        bot = lo if d - lo <= 20 else max(lo, d - max(abs(d) * 2.0, 6))
        if top <= bot:
            top = hi
        if m == "check_int":
            l2, h2 = int(np.floor(bot)) + (1 if opn else 0), int(np.ceil(top)) - (1 if opn and top == hi else 0)
            if h2 < l2:
                return default
            if rng.random() < 0.3:
                return int(rng.choice([l2, h2]))
            return int(rng.integers(l2, h2 + 1))
        r = rng.random()
        if r < 0.15 and not opn:
            return float(bot)
        if r < 0.3 and not opn:
            return float(top)
        eps = 1e-3 * (top - bot)
        return float(np.round(rng.uniform(bot + eps, top - eps), 6)) if top > bot else default
    return default


def random_params(rng, algo, pop, how="random", epoch=None):
    """Random hyper-parameters in their accepted ranges (marginally; joint constraints are left to the constructor)."""
    s = SPEC[algo]
    out = {}
    for name in s["checks"]:
        if name in ("epoch", "pop_size") or name not in s["defaults"]:
            continue
        chk = s["pop_bounds"].get(name, {}).get(str(pop)) or s["ep_bounds"].get(name, {}).get(str(epoch)) or s["checks"][name]
        default = s["defaults"][name]
        dep = name in s["pop_dep"] or name in s["ep_dep"]
        if dep or (how == "random" and rng.random() < 0.7):
            v = sample_param(rng, chk, default)
            if dep and how != "random":
                # stay with the default if it is inside the range for this population size or number of epochs
                b = chk["bounds"][0] if chk["bounds"] else None
                if b and "v" in b and isinstance(default, (int, float)):
                    lo, hi = _num(b["v"][0]), _num(b["v"][1])
                    if lo <= default <= hi:
                        v = default
            out[name] = v
    return out


# Options that a constructor takes by keyword only (documented, but not part of its signature)
EXTRA = {"BaseGA": {"selection": ["tournament", "random", "roulette"], "crossover": ["one_point", "multi_points", "uniform", "arithmetic"],
                    "mutation_multipoints": [True, False], "mutation": ["flip", "swap", "scramble", "inversion"], "k_way": [0.2, 0.05, 0.5, 0.9]}}


def options(algo, narrow=8):
    """{parameter: its values} for all parameters with a small set of accepted values"""
    s, out = SPEC[algo], {}
    for name, chk in s["checks"].items():
        if name in ("epoch", "pop_size") or name not in s["defaults"]:
            continue
        b = chk["bounds"][0] if chk["bounds"] else None
        if chk["method"] == "check_bool":
            out[name] = [True, False]
        elif chk["method"] == "check_str" and b:
            out[name] = [str(v) for v in b["v"]]
        elif chk["method"] == "check_int" and b and "v" in b and name not in s["pop_dep"] and name not in s["ep_dep"]:
            lo, hi = _num(b["v"][0]), _num(b["v"][1])
            if np.isfinite(lo) and np.isfinite(hi):
                opn = b["kind"] == "open"
                lo, hi = int(np.floor(lo)) + opn, int(np.ceil(hi)) - opn
                if 0 < hi - lo < narrow:
                    out[name] = list(range(lo, hi + 1))
    return out


def fix_options(algo, params):
    if algo == "BaseGA" and params.get("mutation_multipoints", True) and params.get("mutation") in ("scramble", "inversion"):
        params["mutation_multipoints"] = False
    return params


def rotate(c, k):
    """Parameters with few values take all of them in turn (k = 0, 1, 2, ...), each at its own pace."""
    algo = c["algo"]
    for name, vals in {**options(algo), **EXTRA.get(algo, {})}.items():
        h = zlib.crc32(name.encode())
        n = len(vals)
        c["params"][name] = vals[(h + k + (k // n) * (h % 3)) % n]
    fix_options(algo, c["params"])
    return c


def corner_params(rng, algo, how):
    """Parameters at the borders of their ranges.  how: a parameter name (only this one) or None (some of them)"""
    s, out = SPEC[algo], {}
    opt = options(algo)
    for name, chk in s["checks"].items():
        if name in ("epoch", "pop_size") or name not in s["defaults"] or (how and name != how) or (not how and rng.random() < 0.4):
            continue
        b = chk["bounds"][0] if chk["bounds"] else None
        if name in opt:
            out[name] = opt[name][int(rng.integers(len(opt[name])))]
        elif chk["method"] in ("check_int", "check_float") and b and "v" in b:
            lo, hi = _num(b["v"][0]), _num(b["v"][1])
            if not (np.isfinite(lo) and np.isfinite(hi)):
                continue
            opn = b["kind"] == "open"
            if chk["method"] == "check_int":
                lo, hi = int(np.floor(lo)) + opn, int(np.ceil(hi)) - opn
                out[name] = int(rng.choice([lo, lo + 1] + ([hi] if hi <= 30 else [])))
            else:
                d = 0.02 * min(hi - lo, 1.0) if opn else 0.0
                out[name] = float(rng.choice([lo + d] + ([hi - d] if hi <= 20 else [])))
    for name, vals in EXTRA.get(algo, {}).items():
        if rng.random() < 0.5:
            out[name] = vals[int(rng.integers(len(vals)))]
    return fix_options(algo, out)


def small_case(rng, algo, i):
    """The smallest accepted populations and dimensions with parameters at their borders"""
    names = [None, None] + [n for n in SPEC[algo]["checks"] if n not in ("epoch", "pop_size") and n in SPEC[algo]["defaults"]]
    c = base_case(rng, algo, pop=int(rng.choice([5, 5, 6, 7, 8, 9])), epoch=int(rng.choice([1, 2, 3, 5])), obj=str(rng.choice(["sphere", "rastrigin", "linear", "step", "const"])))
    c["space"] = [float_space(rng, int(rng.choice([1, 1, 2, 3, 4])))] if i % 3 else space_for(rng, str(rng.choice(["mixed", "int", "perm", "bin", "string"])))
    c["params"] = {} if i % 6 == 0 else corner_params(rng, algo, names[i % len(names)])
    c["mode"] = "swarm" if rng.random() < 0.4 else "single"
    return c


def beyond(algo, pop=10, epoch=20):
    """[(parameter, value)]: numbers just outside every recorded range; a constructor that takes one has to be able to run with it."""
    s, out = SPEC[algo], []
    for name, chk in s["checks"].items():
        chk = s["pop_bounds"].get(name, {}).get(str(pop)) or s["ep_bounds"].get(name, {}).get(str(epoch)) or chk
        b = chk["bounds"][0] if chk["bounds"] else None
        if name not in s["defaults"] or chk["method"] not in ("check_int", "check_float") or b is None or "v" not in b:
            continue
        lo, hi = _num(b["v"][0]), _num(b["v"][1])
        w = 1 if chk["method"] == "check_int" else max(1e-6, 0.05 * min(hi - lo, 1e3)) if np.isfinite(hi - lo) else 1.0
        k = int if chk["method"] == "check_int" else float
        vals = [lo - w, lo - 2 * w, 0, -1, -lo] if np.isfinite(lo) else []
        vals += [3, 2, 1] if name == "pop_size" else []
        vals += [lo, hi] if b["kind"] == "open" else []
        vals += [hi + w, hi + 2 * w, 2 * hi] if np.isfinite(hi) and hi <= 10000 and name not in ("epoch", "pop_size") else []
        for v in vals:
            if np.isfinite(v) and not (lo <= v <= hi if b["kind"] != "open" else lo < v < hi) and (name, k(v)) not in out:
                out.append((name, k(v)))
    return out


def long_case(rng, algo, i):
    """Many epochs: phases that come late or every so many epochs"""
    c = base_case(rng, algo, flavour=str(rng.choice(["float", "mixed", "mixed", "perm", "int"])), pop=int(rng.choice([10, 11, 15])), epoch=int(rng.choice([101, 110, 130])),
                  params="random" if i % 2 else "default")
    c["mode"] = "swarm" if rng.random() < 0.35 else "single"
    if i % 2:
        rotate(c, i // 2)
    return c


def base_case(rng, algo, flavour="float", pop=None, epoch=None, params="default", obj=None, minmax=None, mode="single"):
    pop = pop or int(rng.choice(POPS))
    if SPEC[algo]["pops_ok"] and pop not in SPEC[algo]["pops_ok"] and params == "default":
        params = "fit"
    epoch = epoch or int(rng.choice([4, 7, 12]))
    c = {"algo": algo, "pop_size": pop, "epoch": epoch, "space": space_for(rng, flavour),
         "obj": obj or str(rng.choice(["sphere", "rastrigin", "linear", "negative", "mixed", "step", "const", "huge", "edge", "maxabs", "asint"])),
         "minmax": minmax or str(rng.choice(["min", "max"])), "mode": mode, "seed": int(rng.integers(0, 2 ** 31 - 1))}
    c["params"] = random_params(rng, algo, pop, "random" if params == "random" else "fit", epoch)
    if "pop_size" not in SPEC[algo]["defaults"]:
        c["pop_size"] = None
    return c
