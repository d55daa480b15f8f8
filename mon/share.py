"""What part each variable and each agent had in a set of runs."""
import numpy as np
from . import engine as E


def facts(case, cpu_limit=20.0):
    """Aggregated over case["seeds"]: per variable the number of values tried after the start, per place of the population the number of epochs in which its solution changed,
    and the smallest number of objective calls in an epoch."""
    cols = slots = None
    least, epochs, runs, calls, err = None, 0, 0, 0, None
    for s in case["seeds"]:
        tr = E.run_case(dict(case, seed=s), cpu_limit=cpu_limit)
        if tr.model is None or not tr.finished or not tr.epochs:
            err = tr.error
            continue
        runs += 1
        X = [np.asarray(e[0], float) for e in tr.obj.evals]
        i0 = tr.init_evals
        calls += len(X)
        A, B = np.array(X[:i0]), np.array(X[i0:])
        n = len(X[0])
        c = np.zeros(n)
        if len(B):
            for j in range(n):
                c[j] = len(np.setdiff1d(B[:, j], A[:, j])) if len(A) else len(np.unique(B[:, j]))
        cols = c if cols is None else cols + c
        P = [tr.init_pop] + [e["pop"] for e in tr.epochs]
        if all(p is not None for p in P):
            m = min(map(len, P))
            ch = np.array([sum(not np.array_equal(p[i][0], q[i][0]) for p, q in zip(P, P[1:])) for i in range(m)], float)
            if slots is None or len(ch) == len(slots):
                slots = ch if slots is None else slots + ch
        k = [b["n_evals"] - a for a, b in zip([i0] + [e["n_evals"] for e in tr.epochs], tr.epochs)]
        epochs += len(k)
        least = min(k) if least is None else min(least, min(k))
    return {"cols": cols, "slots": slots, "least": least, "epochs": epochs, "runs": runs, "calls": calls, "error": err}


def ratio(v):
    """Share of the least one, compared with the middle one, and the middle one itself."""
    if v is None or len(v) < 2:
        return None, 0.0
    m = float(np.median(v))
    return (float(np.min(v)) / m if m > 0 else None), m
