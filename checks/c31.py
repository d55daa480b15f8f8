import json, os
import numpy as np
from mon import core, gen, share
from mon.sweep import Sweep

PATH = os.path.join(core.ROOT, "spec", "share.json")
SPEC = json.load(open(PATH)) if os.path.exists(PATH) else {}


class C31(Sweep):
    id = "C31"
    technique = "trace monitor over groups of runs: values tried per variable, changes per place of the population, objective calls per epoch, against the least share recorded per optimizer"
    rule = ("case = optimizer x number of variables x population size (mostly odd) x hyper-parameters x mode, several seeds on a problem in which all variables are alike; counted per variable (values tried "
            "after the start), per place of the population (epochs with a changed solution) and per epoch (objective calls); distinct by configuration")
    assumptions = ("the least shares (spec/share.json) were recorded on the tree under study over many groups of runs; a violation needs less than a third of the least recorded share, "
                   "and for calls per epoch an optimizer that always made at least one call per agent")
    per_algo = {"quick": 4, "thorough": 60}
    floors = {"groups_vars": 600, "groups_agents": 450, "epochs_full": 25000}

    def make_case(self, rng, algo, i, tier):
        pop = [11, 15, 23, 20, 13, 30][int(rng.integers(0, 6))]
        c = gen.base_case(rng, algo, pop=pop, epoch=12, params="random" if i % 3 == 2 else "fit", obj=["sphere", "rastrigin"][i % 2], mode=["single", "swarm"][int(rng.random() < 0.35)])
        n = int(rng.choice([2, 3, 4, 5, 7, 9, 13, 25]))
        b = float(rng.choice([1.0, 10.0, 100.0]))
        c["space"] = [{"kind": "float", "lb": [-b] * n, "ub": [b] * n}] if rng.random() < 0.85 else [{"kind": "int", "lb": [-5000] * n, "ub": [5000] * n}]
        c["minmax"] = "min" if rng.random() < 0.7 else "max"
        c["sign"] = 1.0 if c["minmax"] == "min" else -1.0
        c["seeds"] = [int(s) for s in rng.integers(0, 2 ** 31 - 1, 5)]
        c["budget"] = 60000
        return c

    def run(self, case):
        r = core.R()
        a = case["algo"]
        s = SPEC.get(a)
        f = share.facts(case)
        if not f["runs"]:
            r.skip = f"no run finished: {f['error']!r}"[:200]
            return r
        r.n("runs", f["runs"])
        r.n("epochs_observed", f["epochs"])
        r.n("evaluations_observed", f["calls"])
        r.sig(a, case["pop_size"], len(f["cols"]), case["mode"], f["calls"])
        r.sample(f"values tried per variable {f['cols'].tolist()}, changes per place {None if f['slots'] is None else f['slots'].tolist()}, at least {f['least']} calls an epoch")
        if s is None:
            return r
        def low(v, key, enough):
            q, m = share.ratio(v)
            return s[key] is not None and q is not None and 3 <= m < enough and q < s[key] / 3
        if low(f["slots"], "agents", 14) or low(f["cols"], "vars", 45 / (s["vars"] or 1)):       # too few changes to tell: more runs decide
            r.n("groups_extended")
            rng = gen.rng_for(case["seeds"][0], "C31 more", a)
            f = share.facts(dict(case, seeds=case["seeds"] + [int(x) for x in rng.integers(0, 2 ** 31 - 1, 20)]))
        q, m = share.ratio(f["cols"])
        if s["vars"] is not None and q is not None and m * s["vars"] >= 45:
            r.n("groups_vars")
            if q < s["vars"] / 3:
                r.v(f"variable:{a}", f"values tried per variable in {f['runs']} runs: {f['cols'].tolist()}; the variables are alike, and the least one never had less than {s['vars']:.2f} of the middle one")
        q, m = share.ratio(f["slots"])
        if s["agents"] is not None and q is not None and m * s["agents"] >= 14:
            r.n("groups_agents")
            if q < s["agents"] / 3 or q * m <= 1:
                r.v(f"agent:{a}", f"changes of solution per place of the population in {f['epochs']} epochs: {f['slots'].tolist()}; the least one never had less than {s['agents']:.2f} of the middle one")
        if s["full"] and case["pop_size"]:
            r.n("epochs_full", f["epochs"])
            if f["least"] < case["pop_size"]:
                r.v(f"epoch:{a}", f"an epoch made only {f['least']} objective calls for {case['pop_size']} agents; every recorded epoch of this optimizer made at least one per agent")
        return r


CHECK = C31()
