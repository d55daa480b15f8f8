import numpy as np
from mon import core, engine as E, gen, oracles as Q
from mon.sweep import Sweep
from mealpy import Termination

EPS = [None, 1e-12, 0.3, 7.77, 1e5]


class C07(Sweep):
    id = "C07"
    technique = ("model-based online monitor under a virtual clock: a reference stop rule is evaluated on the observed objective calls, clock and bests at every epoch end "
                 "and compared with where the run really stopped")
    rule = ("case = optimizer x set of criteria and thresholds (dictionary or object, used once or for two runs in a row, of one optimizer or two, with time passing in between) x cost per evaluation and per epoch x objective; "
            "non-trivial = the run ended; distinct by configuration, criteria, the criterion that ended the run and the epoch it ended at")
    assumptions = ("elapsed time is virtual: every clock of the time module is replaced and advances only with objective calls and epochs",
                   "thresholds hit within 1e-9 of the elapsed time, or improvements equal to the tolerance, are not judged")
    per_algo = {"quick": 20, "thorough": 200}
    budget_evals = 60000
    floors = {"stops_judged": 1200, "stopped_early": 600, "by_max_epoch": 100, "by_max_fe": 100, "by_max_time": 100, "by_max_early_stop": 100, "by_epochs": 200,
              "epochs_judged": 5000, "reused_objects": 200}

    def make_case(self, rng, algo, i, tier):
        c = gen.base_case(rng, algo, flavour=str(rng.choice(["float", "float", "int", "mixed_det"])), params="random" if i % 3 == 2 else "default", epoch=int(rng.choice([3, 6, 10, 16])),
                          pop=int(rng.choice([10, 11, 15])), mode=str(rng.choice(["single", "swarm"])),
                          obj=str(rng.choice(["sphere", "const", "step", "rastrigin", "asint", "negative"])))
        c["budget"] = self.budget_evals
        c["clock"] = {"per_call": float(rng.choice([0.0, 0.013, 0.21])), "per_epoch": float(rng.choice([0.0, 0.7, 3.1])), "after_epoch": float(rng.choice([0.0, 0.37]))}
        t = {}
        crit = [k for k in ("max_epoch", "max_fe", "max_time", "max_early_stop") if rng.random() < 0.4]
        if i % 6 != 5:
            crit = crit or [str(rng.choice(["max_epoch", "max_fe", "max_time", "max_early_stop"]))]
            for k in crit:
                if k == "max_epoch":
                    t[k] = int(rng.integers(1, c["epoch"] + 4))
                elif k == "max_fe":
                    t[k] = int(rng.choice([10, int(rng.integers(10, 60)), int(rng.integers(10, 400))]))
                elif k == "max_time":
                    t[k] = float(np.round(rng.choice([0.1, rng.uniform(0.1, 5), rng.uniform(0.1, 40)]), 3))
                else:
                    t[k] = int(rng.integers(1, 7))
                    e = EPS[int(rng.integers(0, len(EPS)))]
                    if e is not None:
                        t["epsilon"] = e
            c["term"] = t
            c["form"] = str(rng.choice(["dict", "object", "nested"]))
        c["twice"] = bool(rng.random() < 0.4) and ("other" if rng.random() < 0.3 else True)
        return c

    def run(self, case):
        r = core.R()
        a = case["algo"]
        term = None
        if case.get("term") is not None:
            t = dict(case["term"])
            term = t if case["form"] == "dict" else Termination(**t) if case["form"] == "object" else Termination(termination=t)
        model = None
        start = None
        for k in range(2 if case["twice"] else 1):
            c = dict(case, termination=term, seed=case["seed"] + k)
            if start:       # time goes on between two runs
                c["clock"] = dict(case["clock"], start=start)
                if case.get("twice") == "other":
                    model = None
            tr = E.run_case(c, model=model, keep_pops=False, cpu_limit=20)
            if tr.model is None:
                r.skip = "constructor rejected the configuration"
                return r
            model, start = tr.model, tr.clock.t + (0.0 if case["seed"] % 2 else 61.7)
            if not tr.finished:
                r.skip = f"run ended with {type(tr.error).__name__}"
                return r
            r.n("reused_objects", k)
            self.check(case, tr, r, k)
            if r.viol:
                return r
        return r

    def check(self, case, tr, r, k):
        a = case["algo"]
        t = case.get("term") or {}
        cap = case["epoch"] if case["epoch"] is not None else None
        n = len(tr.epochs)
        eps = t.get("epsilon", 1e-10)
        g = [tr.init_gbest[1]] + [e["g_after"][1] for e in tr.epochs]
        count = lo_count = 0
        why = None
        r.n("evaluations_observed", len(tr.obj.evals))
        if [e["epoch"] for e in tr.epochs] != list(range(1, n + 1)):
            r.v(f"numbering:{a}", f"epochs were numbered {[e['epoch'] for e in tr.epochs]}")
            return
        for i, e in enumerate(tr.epochs):
            r.n("epochs_judged")
            d = abs(g[i + 1] - g[i])
            if abs(d - eps) <= 1e-9 * max(1.0, eps) and eps > 1e-9 and d != 0:
                r.skip = "an improvement equals the tolerance"
                return
            count = count + 1 if d <= eps else 0
            met = []
            amb = False
            if "max_epoch" in t and e["epoch"] >= t["max_epoch"]:
                met.append("max_epoch")
            if "max_fe" in t and e["n_evals"] >= t["max_fe"]:
                met.append("max_fe")
            if "max_time" in t:
                el = e["t"] - tr.t0
                if abs(el - t["max_time"]) < 1e-9:
                    amb = True
                elif el > t["max_time"]:
                    met.append("max_time")
            if "max_early_stop" in t and count >= t["max_early_stop"]:
                met.append("max_early_stop")
            last = i == n - 1
            state = f"epoch {e['epoch']}: {e['n_evals']} objective calls, {e['t'] - tr.t0:.6g} s, {count} epochs without improvement; criteria {t} ({case.get('form')}, run {k + 1})"
            if met and not last:
                r.v(f"late:{a}", f"{'/'.join(met)} was met at {state}, but the run went on to epoch {n}")
                return
            if last:
                if not met and not amb and e["epoch"] != cap:
                    r.v(f"early:{a}", f"no criterion was met and {cap} epochs were asked for, but the run stopped after {state}")
                    return
                why = "/".join(met) or "epochs"
            if amb and not last and not met:
                r.n("ambiguous_time")
        if n == 0 or n > cap:
            r.v(f"epochs:{a}", f"{n} epochs executed, {cap} configured")
            return
        r.n("stops_judged")
        for w in why.split("/"):
            r.n("by_" + w)
        if n < cap:
            r.n("stopped_early")
        r.sig(a, sorted(t.items()), case.get("form"), why, n, len(tr.obj.evals), k)
        r.sample(f"stopped after epoch {n} of {cap} by {why}; {len(tr.obj.evals)} calls; criteria {t}")


CHECK = C07()
