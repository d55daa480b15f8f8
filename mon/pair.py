"""Differential monitors: two or more executions that must be indistinguishable, compared on everything observable."""
import contextlib
import io
import random
import numpy as np
from . import engine as E, oracles as Q


def scramble(k):
    """Put the ambient random state somewhere else."""
    np.random.seed(k % (2 ** 32))
    random.seed(k * 7919 + 1)
    for _ in range(k % 5):
        np.random.random()
        random.random()


def full_digest(tr, ordered=True):
    """Digest of one run.  ordered=False: evaluations as a multiset (parallel modes complete them in any order)."""
    d = Q.trace_digest(tr)
    if tr.remote:
        d["evals"] = d["evals"] + [(0, Q.key_of(x)) for x, _, _ in tr.remote]
    if not ordered:
        d["evals"] = sorted((0, k) for _, k in d["evals"])
    if tr.finished:
        h = tr.model.history
        d["gw"] = [float(a.target.fitness) for a in h.list_global_worst]
        d["gsol"] = [Q.key_of(a.solution) for a in h.list_global_best]
        d["csol"] = [Q.key_of(a.solution) for a in h.list_current_best]
        if tr.case.get("save_population"):
            d["pops"] = [tuple(Q.key_of(a.solution) for a in p) for p in h.list_population]
    return d


FIELDS = ("evals", "result", "gb", "cb", "div", "nfe", "gw", "gsol", "csol", "pops")


def differ(a, b, fields=FIELDS):
    if a["error"] != b["error"]:
        return f"one run ended with {a['error']}, the other with {b['error']}"
    return Q.diff_digest(a, b, fields)


def run(case, **kw):
    return E.run_case(case, keep_pops=False, cpu_limit=kw.pop("cpu_limit", 40.0), **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
