"""Runs one solve() of the real code under instrumentation and returns the recorded trace.

Everything observed here is observed from outside the implementation: the objective function handed to the
library, the documented override point `evolve` (epoch begin/end events), the public model attributes and the
public history object.
"""
import contextlib
import io
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from . import objectives as O

warnings.filterwarnings("ignore")


def _import_mealpy():
    import mealpy
    real = os.path.realpath(mealpy.__file__)
    root = os.environ.get("MEALPY_ROOT", "/repo")
    assert real == os.path.join(root, "mealpy/__init__.py"), f"mealpy imported from {real}"
    return mealpy


mealpy = _import_mealpy()
from mealpy import Optimizer, Problem  # noqa: E402

ALL = mealpy.get_all_optimizers(verbose=False)


# ---------------------------------------------------------------- spaces
def make_var(spec):
    kind = spec["kind"]
    name = spec.get("name", kind)
    if kind == "float":
        return mealpy.FloatVar(lb=spec["lb"], ub=spec["ub"], name=name)
    if kind == "int":
        return mealpy.IntegerVar(lb=spec["lb"], ub=spec["ub"], name=name)
    if kind == "string":
        return mealpy.StringVar(valid_sets=spec["sets"], name=name)
    if kind == "cat":
        return mealpy.CategoricalVar(valid_sets=spec["sets"], name=name)
    if kind == "seq":
        return mealpy.SequenceVar(valid_sets=spec["sets"], return_type={"list": list, "tuple": tuple, "set": set}[spec.get("ret", "tuple")], name=name)
    if kind == "perm":
        return mealpy.PermutationVar(valid_set=spec["set"], name=name)
    if kind == "bin":
        return mealpy.BinaryVar(n_vars=spec["n"], name=name)
    if kind == "bool":
        return mealpy.BoolVar(n_vars=spec["n"], name=name)
    if kind == "tfbin":
        return mealpy.TransferBinaryVar(n_vars=spec["n"], name=name, tf_func=spec["tf"], lb=spec.get("lb", -8.), ub=spec.get("ub", 8.),
                                        all_zeros=spec.get("all_zeros", True))
    if kind == "tfbool":
        return mealpy.TransferBoolVar(n_vars=spec["n"], name=name, tf_func=spec["tf"], lb=spec.get("lb", -8.), ub=spec.get("ub", 8.))
    raise KeyError(kind)


def space_bounds(space):
    """Independent statement of the encoded box of each variable type (lower, upper), from the documentation."""
    lo, hi = [], []
    for s in space:
        k = s["kind"]
        if k == "float":
            l, u = np.atleast_1d(np.array(s["lb"], float)), np.atleast_1d(np.array(s["ub"], float))
        elif k == "int":
            l = np.atleast_1d(np.array(s["lb"], float)) - 0.5
            u = np.atleast_1d(np.array(s["ub"], float)) + 0.5
        elif k in ("string", "cat"):
            sets = s["sets"] if isinstance(s["sets"][0], (list, tuple)) else [s["sets"]]
            l, u = np.zeros(len(sets)), np.array([len(v) for v in sets], float)
        elif k == "seq":
            l, u = np.zeros(1), np.array([len(s["sets"])], float)
        elif k == "perm":
            l, u = np.zeros(len(s["set"])), np.full(len(s["set"]), float(len(s["set"])))
        elif k in ("bin", "bool"):
            l, u = np.zeros(s["n"]), np.full(s["n"], 2.0)
        else:
            l, u = np.zeros(s["n"]), np.ones(s["n"])
        lo.append(l)
        hi.append(u)
    return np.concatenate(lo), np.concatenate(hi)


def n_dims(space):
    return len(space_bounds(space)[0])


# ---------------------------------------------------------------- virtual clock
class VirtualClock:
    def __init__(self):
        self.t = 1000.0
        self.reads = 0

    def advance(self, dt):
        self.t += dt

    def now(self):
        self.reads += 1
        return self.t

    @contextlib.contextmanager
    def installed(self):
        saved = {k: getattr(time, k) for k in ("perf_counter", "time", "monotonic", "process_time")}
        # names imported from the time module are replaced as well, wherever the library keeps them
        spots = [(m, a, v) for n, m in list(sys.modules.items()) if n.split(".")[0] == "mealpy" and m is not None
                 for a, v in list(vars(m).items()) if any(v is f for f in saved.values())]
        try:
            for k in saved:
                setattr(time, k, self.now)
            for m, a, _ in spots:
                setattr(m, a, self.now)
            yield self
        finally:
            for k, v in saved.items():
                setattr(time, k, v)
            for m, a, v in spots:
                setattr(m, a, v)


# ---------------------------------------------------------------- watchdog
class Watchdog(Exception):
    pass


@contextlib.contextmanager
def cpu_watchdog(seconds):
    """CPU time, not wall clock: independent of machine load."""
    def handler(signum, frame):
        raise Watchdog(f"no result after {seconds} s of CPU time")
    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ---------------------------------------------------------------- one solve
class Trace:
    pass


def build_model(case, cls=None):
    cls = cls or ALL[case["algo"]]
    kw = dict(case.get("params") or {})
    for k in ("epoch", "pop_size"):
        if case.get(k) is not None:
            kw[k] = case[k]
    if case.get("name"):
        kw["name"] = case["name"]
    return cls(**kw)


def build_problem(case, obj):
    bounds = [make_var(s) for s in case["space"]]
    if len(bounds) == 1 and case.get("bare_bounds", True):
        bounds = bounds[0]
    kw = dict(bounds=bounds, minmax=case.get("minmax", "min"), obj_func=obj, log_to=case.get("log_to"),
              save_population=bool(case.get("save_population")), name=case.get("problem_name", "P"))
    if case.get("weights") is not None:
        kw["obj_weights"] = case["weights"]
    if case.get("log_file"):
        kw["log_file"] = case["log_file"]
    if case.get("as_problem"):
        return Problem(**kw)
    return kw


def starting_for(case):
    """In-domain starting solutions (encoded), drawn from an independent generator."""
    st = case.get("starting")
    if not st:
        return None
    rng = np.random.default_rng(st["seed"])
    rows = []
    pop = case["pop_size"]
    for _ in range(pop):
        row = []
        for s in case["space"]:
            k = s["kind"]
            if k == "float":
                l, u = np.atleast_1d(np.array(s["lb"], float)), np.atleast_1d(np.array(s["ub"], float))
                row += list(rng.uniform(l, u))
            elif k == "int":
                l, u = np.atleast_1d(np.array(s["lb"])), np.atleast_1d(np.array(s["ub"]))
                row += [float(v) for v in rng.integers(l, u + 1)]
            elif k in ("string", "cat"):
                sets = s["sets"] if isinstance(s["sets"][0], (list, tuple)) else [s["sets"]]
                row += [float(rng.integers(0, len(v))) for v in sets]
            elif k == "seq":
                row += [float(rng.integers(0, len(s["sets"])))]
            elif k == "perm":
                row += [float(v) for v in rng.permutation(len(s["set"]))]
            else:
                row += [float(v) for v in rng.integers(0, 2, s["n"])]
        rows.append(row)
    kind = st.get("as", "array")
    if kind == "array":
        return np.array(rows)
    if kind == "list_arrays":
        return [np.array(r) for r in rows]
    if kind == "lists":
        return rows
    if kind == "tuples":
        return tuple(tuple(r) for r in rows)
    raise KeyError(kind)


def fit_of(objs, weights):
    v = np.array(objs, dtype=float).ravel() if not isinstance(objs, (int, float)) else np.array([objs], float)
    if weights is None:
        w = np.ones(len(v))
    else:
        w = np.array(weights, float).ravel()
    return float(np.dot(w, v))


def run_case(case, model=None, obj=None, problem=None, evolve_hook=None, cpu_limit=60.0, keep_pops=True):
    """Run one solve; returns a Trace.  Never raises for behaviour of the code under test."""
    tr = Trace()
    tr.case = case
    tr.error = None
    tr.epochs = []          # per epoch: dict(end-of-epoch observations)
    tr.init_pop = None
    tr.finished = False
    tr.model = None
    tr.g_best = None
    mode = case.get("mode", "single")
    log_path = None
    if mode == "process":
        fd, log_path = tempfile.mkstemp(prefix="mealpy-mon-")
        os.close(fd)
        os.unlink(log_path)
    clock = VirtualClock() if case.get("clock") else None
    if clock and case["clock"].get("start"):
        clock.t = float(case["clock"]["start"])
    tr.clock = clock
    if obj is None:
        obj = O.Objective(case["obj"], sign=case.get("sign", 1.0), delay=case.get("delay", 0.0), fail_at=case.get("fail_at"),
                          log_path=log_path, budget=case.get("budget", 400000),
                          clock=(clock, case["clock"]["per_call"]) if clock else None)
    tr.obj = obj
    quiet_out, quiet_err = io.StringIO(), io.StringIO()
    tr.out, tr.err = quiet_out, quiet_err
    sentinel = tr.np_state_before = None
    cls = None
    had = None
    try:
        with contextlib.redirect_stdout(quiet_out), contextlib.redirect_stderr(quiet_err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if model is None:
                model = build_model(case)
            tr.model = model
            cls = type(model)
            problem = build_problem(case, obj) if problem is None else problem
            tr.problem_in = problem
            starting = starting_for(case)
            tr.starting = starting
            tr.starting_copy = None if starting is None else np.array(starting, float)
            orig = cls.evolve
            had = "evolve" in cls.__dict__
            depth = [0]

            def evolve(self, epoch, *a, **k):
                if self is not model or depth[0] or os.getpid() != obj.owner:
                    return orig(self, epoch, *a, **k)
                depth[0] += 1
                try:
                    if not tr.epochs and tr.init_pop is None:
                        tr.init_pop = snap_pop(self)
                        tr.init_fits = pop_fits(self)
                        tr.init_evals = len(obj.evals)
                        tr.init_nfe = self.nfe_counter
                        tr.init_gbest = agent_rec(self.g_best)
                    elif tr.epochs:
                        close_epoch(tr, self)
                    obj.phase = epoch
                    tr.begun = epoch
                    if clock:
                        clock.advance(case["clock"].get("per_epoch", 0.0))
                    if evolve_hook:
                        evolve_hook(self, epoch)
                    r = orig(self, epoch, *a, **k)
                    if clock:
                        clock.advance(case["clock"].get("after_epoch", 0.0))
                    e = {"epoch": epoch, "nfe": self.nfe_counter, "n_evals": len(obj.evals), "g_before": agent_rec(self.g_best)}
                    e["fits"] = pop_fits(self)
                    if keep_pops:
                        e["pop"] = snap_pop(self)
                    if clock:
                        e["t"] = clock.t
                    tr.epochs.append(e)
                    return r
                finally:
                    depth[0] -= 1

            cls.evolve = evolve
            rs_np = np.random.get_state()
            rs_py = random.getstate()
            ctx = clock.installed() if clock else contextlib.nullcontext()
            try:
                with cpu_watchdog(cpu_limit), ctx:
                    tr.t0 = clock.t if clock else None
                    tr.g_best = model.solve(problem, mode=mode, n_workers=case.get("n_workers"), termination=case.get("termination"),
                                            starting_solutions=starting, seed=case.get("seed"))
                    tr.finished = True
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                tr.error = e
                tr.tb = traceback.format_exc()
            n1 = np.random.get_state()
            tr.global_np_touched = not (rs_np[0] == n1[0] and np.array_equal(rs_np[1], n1[1]) and rs_np[2:] == n1[2:])
            tr.global_py_touched = rs_py != random.getstate()
            if tr.finished and tr.epochs:
                close_epoch(tr, model)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        tr.error = e
        tr.tb = traceback.format_exc()
        tr.ctor_error = tr.model is None
    finally:
        if cls is not None and had is not None:
            if had:
                cls.evolve = orig
            else:
                with contextlib.suppress(AttributeError):
                    del cls.evolve
    tr.remote = []
    if log_path:
        tr.remote = obj.collect_remote()
        with contextlib.suppress(OSError):
            os.unlink(log_path)
    return tr


def agent_rec(a):
    if a is None:
        return None
    t = getattr(a, "target", None)
    sol = a.solution
    return (np.array(sol, copy=True) if sol is not None else None,
            None if t is None else float(t.fitness),
            None if t is None else np.array(t.objectives, copy=True))


def snap_pop(model):
    if model.pop is None:
        return None
    return [agent_rec(a) for a in model.pop]


def pop_fits(model):
    """Fitness of every agent (None where there is no usable agent)."""
    out = []
    for a in model.pop if isinstance(model.pop, (list, tuple)) else ():
        t = getattr(a, "target", None)
        try:
            out.append(float(t.fitness))
        except Exception:
            out.append(None)
    return out


def close_epoch(tr, model):
    """State of the public history after the epoch's bookkeeping (taken at the next quiescent point)."""
    e = tr.epochs[-1]
    if "g_after" in e:
        return
    e["g_after"] = agent_rec(model.g_best)
    if keep(model) and tr.case.get("save_population"):
        e["pop_after"] = [agent_rec(a) for a in model.pop]
    h = model.history
    e["nfe_after"] = model.nfe_counter
    e["evals_after"] = len(tr.obj.evals)
    h = model.history
    e["rec"] = {k: agent_rec(getattr(h, k)[-1]) for k in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")}
    e["rec_fit"] = (h.list_global_best_fit[-1], h.list_current_best_fit[-1], h.list_diversity[-1], h.list_epoch_time[-1])
    if h.list_population:
        e["rec_pop"] = [agent_rec(a) for a in h.list_population[-1]]
    e["hist_len"] = (len(h.list_global_best), len(h.list_current_best), len(h.list_global_best_fit), len(h.list_current_best_fit),
                     len(h.list_epoch_time), len(h.list_diversity), len(h.list_population))


def keep(model):
    return model.pop is not None
