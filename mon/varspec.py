"""Independent model of the variable types: their legal user-level values, their encoded boxes, hostile vectors."""
import itertools
import numpy as np
from . import engine as E, gen, oracles as Q

DET = {"float", "int", "string", "cat", "seq", "perm", "bin", "bool"}
EXOTIC = [
    {"kind": "perm", "set": ["a", 1, 2.5]}, {"kind": "perm", "set": [3, "z", "b", 10]}, {"kind": "perm", "set": [1.5, -2.25, 0.0]}, {"kind": "perm", "set": [1, 10, 9, 2]},
    {"kind": "perm", "set": ["10", "9", "2"]}, {"kind": "cat", "sets": [[(1, 2), (3, 4)], ["a", "b", None]]}, {"kind": "cat", "sets": [[10, 9, 2, 1], [0.5, "x"]]},
    {"kind": "cat", "sets": ["b", "a", 10, 9, None, 0.5]}, {"kind": "cat", "sets": [True, False, "other"]}, {"kind": "string", "sets": ["10", "9", "2", "b", "B"]},
    {"kind": "string", "sets": [["long label with spaces", "l"], ["", "x"], ["é", "e", "z"]]}, {"kind": "seq", "sets": [[3, 1], [1, 2, 3], [9]], "ret": "set"},
    {"kind": "seq", "sets": [["b", "a"], ["c"], []], "ret": "set"}, {"kind": "seq", "sets": [[2, 1], [1, 2], []], "ret": "list"}, {"kind": "int", "lb": [-3], "ub": [-1]},
    {"kind": "int", "lb": [100000], "ub": [100007]}, {"kind": "int", "lb": [-1000000, 0], "ub": [1000000, 1]}, {"kind": "int", "lb": [0], "ub": [0]},
    {"kind": "float", "lb": [-1e6, 0.0], "ub": [1e6, 1e-6]}, {"kind": "float", "lb": [3.0], "ub": [3.0]}, {"kind": "bin", "n": 1}, {"kind": "bool", "n": 1}, {"kind": "bool", "n": 9},
    {"kind": "string", "sets": ["only", "two"]}, {"kind": "cat", "sets": [[1, 2.5], ["a", "b"], [None, 3, "x"]]}, {"kind": "int", "lb": [-7, -1, 0], "ub": [-7, 1, 5]},
]


LABELS = [1, "1", 2, "2", 10, "10", -1, "-1", 0, "0", 1.5, "1.5", -0.25, 1e-9, 1e300, 2 ** 60, None, "None", "none", "", " ", "a", "A", "a ", " a", "ab", "b", "true", "True", "nan", "0.0",
          "unknown", "é", "e\u0301", "\n", "long " * 30, ("a", 1), ("a", "1"), ("b",), (), "()", 3, 4, 5, 6, 7, 8, 9, "x9", "x10", "x1"]


def label_set(rng, k=None):
    """Distinct labels of any type, many of them with the same text, in any order."""
    k = k or int(rng.choice([2, 2, 3, 4, 6, 11, 25]))
    return [LABELS[i] for i in rng.permutation(len(LABELS))[:k]]


def random_space(rng, kinds=None, k=None):
    k = k or int(rng.choice([1, 1, 2, 3, 4, 6]))
    out = []
    for i in range(k):
        if rng.random() < 0.2:
            u = int(rng.integers(0, 3))
            s = {"kind": "perm", "set": [v for v in label_set(rng, 12) if not isinstance(v, tuple)][:int(rng.integers(2, 9))]} if u == 0 else {"kind": "cat", "sets": label_set(rng)} if u == 1 and rng.random() < 0.3 else \
                {"kind": "cat", "sets": [label_set(rng) for _ in range(int(rng.integers(1, 5)))]}
            if s["kind"] == "cat" and isinstance(s["sets"][0], (tuple, list)) and not isinstance(s["sets"][0], list):
                s["sets"] = [s["sets"]]     # a first label that is a tuple would be taken for a set of labels
        elif rng.random() < 0.3:
            s = dict(EXOTIC[int(rng.integers(0, len(EXOTIC)))])
        else:
            kind = str(rng.choice(list(gen.MAKERS)))
            s = gen.float_space(rng, int(rng.integers(1, 4))) if kind == "float" else gen.MAKERS[kind](rng)
        if kinds and s["kind"] not in kinds:
            s = gen.int_var(rng)
        s["name"] = f"v{i}_{s['kind']}"
        out.append(s)
    return out


def fix(s):
    """Undo what JSON does to tuples inside label sets."""
    return s


def sets_of(s):
    return s["sets"] if isinstance(s["sets"][0], (list, tuple)) else [s["sets"]]


def n_vars(s):
    return len(E.space_bounds([s])[0])


def conv(s):
    return {"list": list, "tuple": tuple, "set": set}[s.get("ret", "tuple")]


def legal_value(rng, s):
    """A random legal user-level value in the form the variable's encode takes."""
    k = s["kind"]
    if k == "float":
        lb, ub = np.array(s["lb"], float), np.array(s["ub"], float)
        u = rng.random(len(lb))
        v = lb + u * (ub - lb)
        pick = rng.integers(0, 4, len(lb))
        return np.clip(np.where(pick == 0, lb, np.where(pick == 1, ub, v)), lb, ub)
    if k == "int":
        lb, ub = np.array(s["lb"]), np.array(s["ub"])
        v = rng.integers(lb, ub + 1)
        pick = rng.integers(0, 4, len(lb))
        return np.where(pick == 0, lb, np.where(pick == 1, ub, v))
    if k in ("string", "cat"):
        return [st[int(rng.integers(0, len(st)))] for st in sets_of(s)]
    if k == "seq":
        return conv(s)(s["sets"][int(rng.integers(0, len(s["sets"])))])
    if k == "perm":
        return [s["set"][i] for i in rng.permutation(len(s["set"]))]
    v = rng.integers(0, 2, s["n"])
    if k == "tfbin" and not s.get("all_zeros", True) and not v.any():
        v[int(rng.integers(0, len(v)))] = 1
    return v.astype(bool) if k in ("bool", "tfbool") else v


def as_given(rng, s, v):
    """The same value in another admissible container."""
    if s["kind"] == "seq":
        return v
    u = rng.integers(0, 3)
    w = list(v)
    return tuple(w) if u == 0 else w if u == 1 else v


def user_form(s, v):
    """What decoding must give for this value: the sequence of the variable's values."""
    return [v] if s["kind"] == "seq" else v


def equal_value(s, got, want):
    k = s["kind"]
    if k == "seq":
        return type(got) is type(want) and got == want
    if k in ("float", "int"):
        a = np.asarray(got)
        if k == "int" and not np.issubdtype(a.dtype, np.integer):
            return False
        return a.shape == np.asarray(want).shape and np.array_equal(a, want)
    if len(got) != len(want):
        return False
    if k in ("string", "cat", "perm"):
        return all(type(a) is type(b) and a == b or (a is b) for a, b in zip(list(got), list(want)))
    return [int(x) for x in got] == [int(x) for x in want] and (k != "bool" or all(isinstance(x, (bool, np.bool_)) for x in got))


def hostile(rng, s):
    """Any real vector for this variable: inside, outside, on the edges, infinite."""
    lo, hi = E.space_bounds([s])
    if s["kind"] in ("tfbin", "tfbool"):
        lo, hi = np.full(s["n"], s.get("lb", -8.0)), np.full(s["n"], s.get("ub", 8.0))
    n = len(lo)
    w = np.maximum(hi - lo, 1.0)
    out = np.empty(n)
    for i in range(n):
        u = rng.random()
        if u < 0.35:
            out[i] = lo[i] + rng.random() * (hi[i] - lo[i])
        elif u < 0.5:
            out[i] = rng.choice([lo[i], hi[i], np.nextafter(hi[i], -np.inf), np.nextafter(lo[i], -np.inf), np.nextafter(hi[i], np.inf), 0.0, -0.0])
        elif u < 0.62:
            out[i] = float(np.round(lo[i] + rng.random() * (hi[i] - lo[i])))
        elif u < 0.8:
            out[i] = lo[i] - w[i] * 10 ** rng.uniform(-6, 3)
        elif u < 0.95:
            out[i] = hi[i] + w[i] * 10 ** rng.uniform(-6, 3)
        else:
            out[i] = rng.choice([np.inf, -np.inf, 1e300, -1e300, 1e-300])
    return out
