"""Captures, once, the accepted range of every hyper-parameter of every optimizer (committed as spec/params.json).

The checks never re-derive this file: it is the specification that C18 judges the tree against and the source of the
random configurations of all other checks."""
import sys, os, json, inspect, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import engine as E
from mealpy.utils.validator import Validator

METHODS = ["check_int", "check_float", "check_str", "check_bool", "check_tuple_int", "check_tuple_float", "check_list_tuple",
           "check_is_instance", "check_is_int_and_float"]
POPS = [10, 11, 15, 20, 21, 24, 30, 33, 40, 50]
EPOCHS = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 25, 30, 40, 50, 60, 80, 100]
calls = None
for m in METHODS:
    orig = getattr(Validator, m)
    def mk(m, orig):
        def f(self, name, value, *a, **k):
            if calls is not None:
                calls.append((m, name, value, a, k))
            return orig(self, name, value, *a, **k)
        return f
    setattr(Validator, m, mk(m, orig))


def enc_bound(b):
    if b is None:
        return None
    if isinstance(b, (list, tuple)) and b and isinstance(b[0], (list, tuple)):
        return {"each": [enc_bound(x) for x in b]}
    if isinstance(b, np.ndarray):
        b = list(b)
    return {"kind": "open" if isinstance(b, tuple) else "closed", "v": [x if isinstance(x, (str, bool)) else (repr(float(x)) if isinstance(x, float) else (int(x) if isinstance(x, (int, np.integer)) else str(x))) for x in b]}


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except TypeError:
        return repr(v)


def capture(cls, **kw):
    global calls
    calls = []
    try:
        o = cls(**kw)
        err = None
    except Exception as e:
        o, err = None, f"{type(e).__name__}: {e}"
    out = {}
    for m, name, value, a, k in calls:
        out[name] = {"method": m, "bounds": [enc_bound(x) for x in a] + [enc_bound(x) for x in k.values()]}
    calls = None
    return out, o, err


spec = {}
for name, cls in sorted(E.ALL.items()):
    sig = {}
    for c in cls.__mro__:
        if "__init__" in c.__dict__:
            for p in inspect.signature(c.__init__).parameters.values():
                if p.name not in ("self", "kwargs") and p.name not in sig:
                    sig[p.name] = p.default if p.default is not inspect.Parameter.empty else None
        if c is E.Optimizer:
            break
    a, o, err = capture(cls)
    b, _, _ = capture(cls, pop_size=37) if "pop_size" in sig else ({}, None, None)
    d = {"defaults": {k: jsonable(v) for k, v in sig.items()}, "checks": a, "error": err, "pop_dep": sorted(k for k in a if b and a.get(k) != b.get(k)),
         "reported": {k: jsonable(v) for k, v in o.parameters.items()} if o else None, "parallel": bool(o.is_parallelizable) if o else None,
         "sort_flag": bool(o.sort_flag) if o else None, "module": cls.__module__}
    pb = {}
    for pop in POPS:
        if d["pop_dep"]:
            c, _, e2 = capture(cls, pop_size=pop)
            for k in d["pop_dep"]:
                if k in c:
                    pb.setdefault(k, {})[str(pop)] = c[k]
    d["pop_bounds"] = pb
    e37 = capture(cls, epoch=37)[0] if "epoch" in sig else {}
    d["ep_dep"] = sorted(k for k in a if e37 and k in e37 and a.get(k) != e37.get(k))
    eb = {}
    for ep in EPOCHS:
        if d["ep_dep"]:
            c, _, e2 = capture(cls, epoch=ep)
            for k in d["ep_dep"]:
                if k in c:
                    eb.setdefault(k, {})[str(ep)] = c[k]
    d["ep_bounds"] = eb
    d["pops_ok"] = [p for p in POPS if "pop_size" in sig and capture(cls, pop_size=p)[1] is not None]
    spec[name] = d
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "params.json")
os.makedirs(os.path.dirname(out), exist_ok=True)
if __name__ == "__main__":
    json.dump(spec, open(out, "w"), indent=0, sort_keys=True)
    from collections import Counter
    print(len(spec), Counter(c["method"] for s in spec.values() for c in s["checks"].values()))
    print([(k, s["error"]) for k, s in spec.items() if s["error"]])
    print({k: (s["ep_dep"], sorted(s["ep_bounds"].get(s["ep_dep"][0],{}))) for k, s in spec.items() if s["ep_dep"]})
    print({k: s["pop_dep"] for k, s in spec.items() if s["pop_dep"]})
    print({k: [x for x in s["defaults"] if x not in s["checks"] and x not in ("epoch", "pop_size")] for k, s in spec.items() if [x for x in s["defaults"] if x not in s["checks"]]})
    print({k: [x for x in s["checks"] if x not in s["defaults"]] for k, s in spec.items() if [x for x in s["checks"] if x not in s["defaults"]]})
    print({k: (sorted(set(s["reported"]) ^ set(s["defaults"]))) for k, s in spec.items() if s["reported"] is not None and set(s["reported"]) != set(s["defaults"])})
    print({k: {q: (s["reported"][q], s["defaults"][q]) for q in s["reported"] if q in s["defaults"] and s["reported"][q] != s["defaults"][q]} for k, s in spec.items() if s["reported"] is not None and any(s["reported"][q] != s["defaults"].get(q) for q in s["reported"])})
    print([k for k, s in spec.items() if s["parallel"] is False])
