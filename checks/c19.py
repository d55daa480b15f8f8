import json, os
from mon import core, gen, mirror
from mon.sweep import Sweep
from mon import oracles as Q

CLASSES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "mirror.json")))


class C19(Sweep):
    id = "C19"
    technique = "metamorphic runtime monitor: the same seeded run minimising f and maximising -f, the two evaluation logs compared call by call"
    rule = ("case = optimizer x hyper-parameters x space x mode x objective; the optimizer runs on min f and on max -f with the same seed, f having no ties; optimizers of class 'exact' must "
            "evaluate identical vectors throughout and report negated histories, class 'first' up to rounding until the end of the first epoch, class 'swing' the same on fitness values of "
            "alternating sign; distinct by configuration and number of calls")
    assumptions = ("the class of an optimizer (spec/mirror.json) is what its update rules allow: rules that use proportions of raw fitness values are not symmetric by design",)
    per_algo = {"quick": 8, "thorough": 60}
    floors = {"pairs": 1800, "calls_compared": 200000}
    objs = ["sphere", "rastrigin", "mixed", "negative"]

    def algos(self):
        return [a for a in gen.ALGOS if a in CLASSES]

    def make_case(self, rng, algo, i, tier):
        obj = "swing" if CLASSES[algo] == "swing" else self.objs[i % 4]
        c = gen.base_case(rng, algo, params="random" if i % 2 else "default", obj=obj, minmax="min", mode=["single", "swarm"][i // 4 % 2])
        c["space"] = gen.mixed_space(rng) if i % 3 == 2 else [gen.float_space(rng, int(rng.integers(1, 6)))]
        return c

    extra_long = {"quick": 1, "thorough": 8}

    def make_long(self, rng, algo, i):
        if CLASSES[algo] == "first":
            return None
        c = gen.long_case(rng, algo, 2 * i)
        c.update(obj="swing" if CLASSES[algo] == "swing" else str(rng.choice(self.objs)), minmax="min", budget=400000)
        return c

    def run(self, case):
        r = core.R()
        a, b = mirror.pair(case)
        if a.model is None or b.model is None:
            if (a.model is None) != (b.model is None):
                r.v(f"direction:{case['algo']}", "the constructor's verdict depends on the direction")
            r.skip = "constructor rejected the configuration"
            return r
        kind = CLASSES[case["algo"]]
        d = mirror.differs(a, b) if kind == "exact" else mirror.differs_first(a, b)
        r.n("pairs")
        r.n("pairs_" + kind)
        r.n("calls_compared", min(len(a.obj.evals), len(b.obj.evals)) if kind == "exact" else sum(e[2] <= 1 for e in a.obj.evals))
        if a.obj.evals:
            r.sig(*Q.nontrivial(a))
        r.sample(f"{len(a.obj.evals)} calls minimising, {len(b.obj.evals)} maximising the negation; bests {[float(x) for x in a.model.history.list_global_best_fit][:3]} / "
                 f"{[float(x) for x in b.model.history.list_global_best_fit][:3]}" if a.finished and b.finished else f"ended by {a.error!r} / {b.error!r}")
        if d:
            r.v(f"direction:{case['algo']}", d[0])
        return r


CHECK = C19()
