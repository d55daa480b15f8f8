"""A problem without ties, and runs of its two formulations (minimise f, maximise -f)."""
import math
import numpy as np
from . import engine as E, objectives as O


class TieFree(O.Objective):
    """f plus a tiny term that depends on the number of the call, so that no two evaluations compare equal; both formulations see the same f."""

    def pure(self, x):
        k = len(self.evals)
        # the fractional parts of k times the golden ratio are spread evenly and never repeat
        v = float(O.FUNCS[self.name](np.asarray(x, dtype=float)))
        v = v + (0.001 + 1e-7 * abs(v)) * ((k * 0.6180339887498949) % 1.0)
        return v if self.sign == 1.0 else -v


class Swing(TieFree):
    """Fitness values of alternating sign, none equal: what an optimizer selects by rank, difference or shifted proportion mirrors exactly."""

    def pure(self, x):
        k = len(self.evals)
        v = (-1.0) ** k * (0.5 + (k * 0.6180339887498949) % 1.0) + 0.1 * math.sin(float(np.sum(np.asarray(x, dtype=float))))
        return v if self.sign == 1.0 else -v


def pair(case, cpu_limit=30):
    out = []
    for sign, mm in ((1.0, "min"), (-1.0, "max")):
        c = dict(case, minmax=mm, sign=sign)
        cls = Swing if case["obj"] == "swing" else TieFree
        obj = cls(case["obj"], sign=sign, budget=case.get("budget", 60000))
        out.append(E.run_case(c, obj=obj, cpu_limit=cpu_limit, keep_pops=False))
    return out


def differs(a, b):
    """First difference of two mirrored traces, or None."""
    for n, (p, q) in enumerate(zip(a.obj.evals, b.obj.evals)):
        if not np.array_equal(p[0], q[0]):
            return f"evaluation {n + 1} (epoch {p[2]}): minimising tries {np.array2string(p[0][:4], precision=5)}, maximising the negation tries {np.array2string(q[0][:4], precision=5)}", p[2]
    if len(a.obj.evals) != len(b.obj.evals):
        return f"{len(a.obj.evals)} evaluations when minimising, {len(b.obj.evals)} when maximising the negation", -1
    if a.finished != b.finished:
        return f"minimising ends with {a.error!r}, maximising with {b.error!r}", -1
    if a.finished:
        fa, fb = a.model.history.list_global_best_fit, b.model.history.list_global_best_fit
        if len(fa) != len(fb) or any(float(x) != -float(y) for x, y in zip(fa, fb)):
            return f"best fitness {list(map(float, fa))[:4]} when minimising, {list(map(float, fb))[:4]} when maximising the negation", -1
        ca, cb = a.model.history.list_current_best_fit, b.model.history.list_current_best_fit
        if len(ca) != len(cb) or any(float(x) != -float(y) for x, y in zip(ca, cb)):
            return f"current best {list(map(float, ca))[:4]} when minimising, {list(map(float, cb))[:4]} when maximising the negation", -1
    return None


def differs_first(a, b, tol=1e-6):
    """First difference up to the end of the first epoch, rounding aside."""
    pa, pb = [[e for e in t.obj.evals if e[2] <= 1] for t in (a, b)]
    for n, (p, q) in enumerate(zip(pa, pb)):
        x, y = np.asarray(p[0], dtype=float), np.asarray(q[0], dtype=float)
        if np.any(np.abs(x - y) > tol * (1e-3 + np.abs(x))):
            return f"evaluation {n + 1} (epoch {p[2]}): minimising tries {np.array2string(x[:4], precision=7)}, maximising the negation tries {np.array2string(y[:4], precision=7)}", p[2]
    if len(pa) != len(pb):
        return f"{len(pa)} evaluations up to the first epoch when minimising, {len(pb)} when maximising the negation", 1
    return None
