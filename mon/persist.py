"""Saving and loading: a picklable recording objective, the public state of a model, and the reader for another process."""
import json
import sys
import warnings
import numpy as np
from . import engine as E, objectives as O


class Recorder:
    """Objective that pickles with the model; every call is recorded."""

    def __init__(self, name, limit=60000):
        self.name, self.calls, self.limit = name, [], limit

    def __call__(self, x):
        v = [float(k) for k in np.ravel(np.asarray(x, dtype=float))]
        self.calls.append(v)
        if len(self.calls) > self.limit:
            raise RuntimeError("evaluation budget")
        return getattr(O, self.name)(np.asarray(x, dtype=float))


def module_objective(x):
    return float(np.sum((np.asarray(x, dtype=float) - 1.0) ** 2))


class OwnProblem(E.Problem):
    """A user's problem class with its own data."""

    def __init__(self, bounds=None, minmax="min", shift=0.5, **kw):
        self.shift = shift
        super().__init__(bounds=bounds, minmax=minmax, **kw)

    def obj_func(self, x):
        return float(np.sum(np.abs(np.asarray(x, dtype=float) - self.shift)))


def num(v):
    a = np.asarray(v, dtype=float)
    return a.tolist()


def agent(a):
    if a is None:
        return None
    return [num(a.solution), None if a.target is None else [float(a.target.fitness), num(a.target.objectives), num(a.target.weights)]]


LISTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")
SERIES = ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation")


def state(m):
    """Everything a user can read off a model, as JSON data."""
    s = {"class": type(m).__name__, "name": m.get_name(), "params": {k: repr(v) for k, v in sorted(m.get_parameters().items())}, "text": str(m), "mode": m.mode,
         "g_best": agent(m.g_best), "g_worst": agent(m.g_worst), "nfe": m.nfe_counter, "pop": None if m.pop is None else [agent(a) for a in m.pop]}
    h = m.history
    if h is not None:
        s["epochs"] = getattr(h, "epoch", None)
        for k in LISTS:
            s[k] = [agent(a) for a in (getattr(h, k) or [])]
        for k in SERIES:
            v = getattr(h, k)
            s[k] = None if v is None else num(v)
        s["list_population"] = [[agent(a) for a in p] for p in (h.list_population or [])]
    p = m.problem
    if p is not None:
        s["problem"] = [type(p).__name__, p.get_name(), p.minmax, num(p.lb), num(p.ub), p.n_dims, p.n_objs, [type(v).__name__ for v in p.bounds], [v.name for v in p.bounds]]
        if m.g_best is not None:
            d = p.decode_solution(np.array(m.g_best.solution, dtype=float))
            s["decoded"] = {k: repr(v) for k, v in d.items()}
    return json.loads(json.dumps(s))


def rerun(m, case, seed):
    """A seeded run on the model; what it evaluated and returned."""
    obj = Recorder(case["obj"])
    prob = dict(bounds=[E.make_var(s) for s in case["space"]], minmax=case["minmax"], obj_func=obj, log_to=None)
    try:
        g = m.solve(prob, seed=seed)
    except RuntimeError:
        return None
    return {"evals": obj.calls, "g": agent(g), "best": [float(x) for x in m.history.list_global_best_fit]}


def main():
    """child: one JSON line per request [path, case, seed]"""
    import contextlib
    import io
    import os
    from mealpy.utils import io as mio
    warnings.simplefilter("ignore")
    out = sys.stdout
    for line in sys.stdin:
        path, case, seed = json.loads(line)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                m = mio.load_model(path)
                rec = {"state": state(m), "run": rerun(m, case, seed) if case else None, "pid": os.getpid()}
        except Exception as e:
            import traceback
            rec = {"error": f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}"}
        out.write(json.dumps(rec) + "\n")
        out.flush()


if __name__ == "__main__":
    from mon import persist
    persist.main()
