import math
import numpy as np
from mon import engine as E, oracles as Q
from mon.sweep import Sweep


class C29(Sweep):
    id = "C29"
    technique = "online trace monitor: after every epoch the recorded global best is compared with the best of all objective calls observed so far"
    rule = ("case = optimizer x variable mix x objective x direction x mode x hyper-parameters; every objective call is recorded with its value, the best of them must not be better than the "
            "global best recorded at the end of the epoch or returned; distinct by configuration, #calls and #improvements")
    assumptions = ("finite objectives",)
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 12, "thorough": 120}
    modes = ("single", "single", "swarm", "thread")
    keep_pops = False
    floors = {"epochs_judged": 15000, "evaluations_compared": 400000, "improvements": 1000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        elif i % 3 == 1:
            c["epoch"] = 15
        return c

    def judge(self, tr, r):
        c = tr.case
        a, mm = c["algo"], c["minmax"]
        fits = [E.fit_of(v, c.get("weights")) for _, v, _ in tr.obj.evals]
        if any(math.isnan(f) for f in fits):
            r.n("nan_runs")
            return
        better = min if mm == "min" else max
        best, done, prev = None, 0, None
        for e in tr.epochs:
            if "rec" not in e:
                continue
            for f in fits[done:e["evals_after"]]:
                best = f if best is None else better(best, f)
            done = e["evals_after"]
            r.n("epochs_judged")
            g = e["rec"]["list_global_best"][1]
            if prev is not None and g != prev:
                r.n("improvements")
            prev = g
            if Q.worse(g, best, mm):
                k = next(k for k, f in enumerate(fits) if f == best)
                r.v(f"lost:{a}", f"epoch {e['epoch']}: the global best is {g!r}, but call {k} (epoch {tr.obj.evals[k][2]}) of the objective gave {best!r} ({mm}) at {np.round(tr.obj.evals[k][0], 6).tolist()}")
                return
        r.n("evaluations_compared", len(fits))
        if tr.finished and fits and Q.worse(float(tr.g_best.target.fitness), better(fits), mm):
            r.v(f"lost:{a}", f"returned {tr.g_best.target.fitness!r}, evaluated {better(fits)!r} ({mm})")


CHECK = C29()
