"""Optimizers and objectives that record what the multitask and tuner utilities really ran, in whichever process."""
import json
import os
import zlib
import numpy as np
from . import engine as E

LOG = [None]            # path of the event log; handed to other processes through the environment
ENV = "MEALPY_MON_RUNLOG"


def num(v):
    return [float(x) for x in np.ravel(np.asarray(v, dtype=float))]


class Fn:
    """Picklable objective with its own optimum."""
    calls = 0
    crc = 0

    def __init__(self, ident, sign=1.0, objs=1):
        self.ident, self.sign, self.objs = ident, sign, objs

    def value(self, x):
        x = np.asarray(x, dtype=float)
        c = 0.1 * (self.ident % 7) + 0.05
        v = self.sign * float(np.sum((x - c) ** 2) + 0.3 * np.sum(np.abs(np.sin(3.0 * x))) + self.ident)
        return v if self.objs == 1 else [v, 0.5 * v]

    def __call__(self, x):
        Fn.calls += 1
        Fn.crc = zlib.crc32(np.asarray(x, dtype=float).tobytes(), Fn.crc)
        return self.value(x)


def describe(term):
    if term is None or isinstance(term, dict):
        return term
    return {k: getattr(term, k, None) for k in ("max_epoch", "max_fe", "max_time", "max_early_stop")}


class Recording:
    """Mixed into a real optimizer: every solve() leaves one line in the log, written by the process that ran it."""

    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
        Fn.calls, Fn.crc = 0, 0
        given = describe(termination)
        rec = {"pid": os.getpid(), "algo": self.get_name(), "params": {k: repr(v) for k, v in self.get_parameters().items()},
               "held": {k: repr(getattr(self, k, None)) for k in self.get_parameters()}, "mode": mode, "n_workers": n_workers, "termination": given, "seed": seed,
               "starting": None if starting_solutions is None else [num(s) for s in starting_solutions]}
        g = super().solve(problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=seed)
        rec.update(problem=self.problem.get_name(), ident=getattr(self.problem.obj_func, "ident", None) if hasattr(self.problem, "obj_func") else None,
                   best=float(g.target.fitness), x=num(g.solution), conv=num(self.history.list_global_best_fit), calls=Fn.calls, crc=Fn.crc, ran_mode=self.mode,
                   minmax=self.problem.minmax)
        path = os.environ.get(ENV)
        if path:
            fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            try:
                os.write(fd, (json.dumps(rec) + "\n").encode())
            finally:
                os.close(fd)
        return g


for _n, _c in E.ALL.items():
    globals()["Rec" + _n] = type("Rec" + _n, (Recording, _c), {"__module__": __name__})


def rec_class(name):
    return globals()["Rec" + name]


class Log:
    def __init__(self, path):
        self.path, self.at = path, 0

    def __enter__(self):
        os.environ[ENV] = self.path
        return self

    def __exit__(self, *a):
        os.environ.pop(ENV, None)

    def read(self):
        """Events since the last call."""
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            f.seek(self.at)
            out = [json.loads(l) for l in f.read().splitlines()]
            self.at = f.tell()
        return out
