"""Deterministic oracles over the recorded trace of one run (mon.engine.run_case)."""
import numpy as np
from . import engine as E
from . import objectives as O


def key_of(x):
    return np.ascontiguousarray(np.asarray(x, dtype=float)).tobytes()


def legal(space, decoded):
    """Is a decoded solution legal?  Independent statement from the declared variables.  Returns None or a message."""
    if not isinstance(decoded, dict) or len(decoded) != len(space):
        return f"decoded solution is not a mapping with one entry per variable: {decoded!r}"
    for s in space:
        name = s.get("name", s["kind"])
        if name not in decoded:
            return f"variable {name} is missing"
        v = decoded[name]
        k = s["kind"]
        if k in ("float", "int"):
            lb, ub = np.atleast_1d(np.asarray(s["lb"], float)), np.atleast_1d(np.asarray(s["ub"], float))
            a = np.atleast_1d(np.asarray(v))
            if a.shape != lb.shape:
                return f"{name}: shape {a.shape}"
            if k == "int" and not np.issubdtype(a.dtype, np.integer):
                return f"{name}: not integer {a.dtype}"
            if not (np.all(a >= lb) and np.all(a <= ub)):
                return f"{name}: {a.tolist()} outside [{lb.tolist()}, {ub.tolist()}]"
        elif k in ("string", "cat"):
            sets = s["sets"] if isinstance(s["sets"][0], (list, tuple)) else [s["sets"]]
            vals = [v] if len(sets) == 1 else list(v)
            if len(vals) != len(sets):
                return f"{name}: {len(vals)} values for {len(sets)} variables"
            for x, st in zip(vals, sets):
                if not any(x is y or (type(x) is type(y) and x == y) for y in st):
                    return f"{name}: {x!r} is not one of {list(st)!r}"
        elif k == "seq":
            want = {"list": list, "tuple": tuple, "set": set}[s.get("ret", "tuple")]
            if type(v) is not want:
                return f"{name}: {type(v).__name__} instead of {want.__name__}"
            if not any(want(t) == v for t in s["sets"]):
                return f"{name}: {v!r} is not one of {s['sets']!r}"
        elif k == "perm":
            if len(v) != len(s["set"]) or sorted(map(str, v)) != sorted(map(str, s["set"])):
                return f"{name}: {v!r} is not a permutation of {s['set']!r}"
        else:
            vals = [v] if s["n"] == 1 else list(np.asarray(v).ravel())
            if len(vals) != s["n"]:
                return f"{name}: {len(vals)} values instead of {s['n']}"
            if k in ("bool", "tfbool") and k == "bool":
                if not all(isinstance(x, (bool, np.bool_)) for x in vals):
                    return f"{name}: not boolean {vals!r}"
            if not all(x in (0, 1) for x in vals):
                return f"{name}: {vals!r} not binary"
    return None


def box(space):
    lo, hi = E.space_bounds(space)
    tol = 1e-9 * np.maximum(1.0, np.abs(hi - lo))
    return lo, hi, tol


def in_domain(x, lo, hi, tol):
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        return f"not a numeric vector: {x!r}"
    if a.shape != lo.shape:
        return f"shape {a.shape} instead of {lo.shape}"
    if not np.all(np.isfinite(a)):
        return f"not finite: {a.tolist()}"
    bad = (a < lo - tol) | (a > hi + tol)
    if np.any(bad):
        i = int(np.argmax(bad))
        return f"coordinate {i} = {a[i]!r} outside [{lo[i]!r}, {hi[i]!r}]"
    return None


def recomputed(tr, x):
    objs = tr.obj.pure(np.asarray(x, dtype=float))
    o = np.atleast_1d(np.asarray(objs, dtype=float)).ravel()
    w = tr.case.get("weights")
    wv = np.ones(len(o)) if w is None else (np.full(len(o), float(w)) if np.isscalar(w) else np.asarray(w, float).ravel())
    return o, float(np.dot(wv, o))


def same_value(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


def honest(tr, rec, cache):
    """rec = (solution, fitness, objectives).  None if the record equals the objective on its own solution."""
    if rec is None or rec[0] is None:
        return "agent without a solution"
    if rec[1] is None:
        return "agent without a target"
    k = key_of(rec[0])
    if k not in cache:
        cache[k] = recomputed(tr, rec[0])
    o, f = cache[k]
    if len(rec[2]) != len(o) or not np.array_equal(np.asarray(rec[2], float), o, equal_nan=True):
        return f"stored objectives {np.asarray(rec[2]).tolist()} but the objective function gives {o.tolist()}"
    if not (same_value(rec[1], f) or (np.isnan(rec[1]) and np.isnan(f))):
        return f"stored fitness {rec[1]!r} but the weighted sum is {f!r}"
    return None


def worse(a, b, minmax):
    """a strictly worse than b"""
    return a > b if minmax == "min" else a < b


def better(a, b, minmax):
    return a < b if minmax == "min" else a > b


def best_of(vals, minmax):
    return min(vals) if minmax == "min" else max(vals)


def rec_of(a):
    return E.agent_rec(a)


def eq_rec(a, b):
    if a is None or b is None:
        return a is b
    return np.array_equal(np.asarray(a[0], float), np.asarray(b[0], float), equal_nan=True) and (a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])) \
        and np.array_equal(np.asarray(a[2], float), np.asarray(b[2], float), equal_nan=True)


def trace_digest(tr):
    """Everything an outside observer can compare between two runs."""
    d = {"evals": [(e[2], key_of(e[0])) for e in tr.obj.evals],
         "result": None if tr.g_best is None else (key_of(tr.g_best.solution), float(tr.g_best.target.fitness)),
         "error": None if tr.error is None else type(tr.error).__name__}
    if tr.finished:
        h = tr.model.history
        d["gb"] = [float(v) for v in h.list_global_best_fit]
        d["cb"] = [float(v) for v in h.list_current_best_fit]
        d["div"] = [float(v) for v in h.list_diversity]
        d["nfe"] = int(tr.model.nfe_counter)
    return d


def diff_digest(a, b, fields=("evals", "result", "gb", "cb", "div", "nfe")):
    for f in fields:
        x, y = a.get(f), b.get(f)
        if f == "evals" and x != y:
            n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            def show(t):
                return f"phase {t[n][0]} x={np.frombuffer(t[n][1])[:4].tolist()}" if n < len(t) else "nothing (run over)"
            return f"evaluation {n + 1} differs: {show(x)} vs {show(y)} ({len(x)} / {len(y)} evaluations)"
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y) or not all(p == q or (p != p and q != q) for p, q in zip(x, y)):
                return f"{f} differs: {x[:6]} vs {y[:6]}"
        elif x != y and not (x is None and y is None):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[1] != x[1] and y[1] != y[1] and x[0] == y[0]:
                continue
            return f"{f} differs: {x!r:.150} vs {y!r:.150}"
    return None


def nontrivial(tr):
    """Signature of what this run exercised (for counting distinct executions)."""
    c = tr.case
    n_impr = 0
    if tr.finished:
        g = tr.model.history.list_global_best_fit
        n_impr = sum(1 for a, b in zip(g, g[1:]) if a != b)
    return (c["algo"], "+".join(s["kind"] for s in c["space"]), E.n_dims(c["space"]), c["obj"], c.get("minmax"), c.get("mode"), c.get("pop_size"),
            len(tr.obj.evals), min(n_impr, 5))
