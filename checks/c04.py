from mon import oracles as Q
from mon.sweep import Sweep
from checks.c02 import set_weights


class C04(Sweep):
    id = "C04"
    technique = "runtime monitor: every agent of every population recomputed against the user's function at epoch ends"
    rule = ("case = optimizer x variable mix x objective x direction x mode x hyper-parameters; all agents of the initial population and of every epoch's "
            "population are recomputed; non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    assumptions = ("the objective is deterministic in the encoded vector",)
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 12, "thorough": 120}
    modes = ("single", "single", "swarm", "thread")
    objs = ["sphere", "rastrigin", "linear", "negative", "mixed", "maxabs", "edge", "multi2", "multi3"]
    floors = {"agents_recomputed": 200000, "runs": 1500}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        set_weights(rng, c)
        if i % 9 == 4:
            c["epoch"] = 30
            c["pop_size"] = c["pop_size"] and min(c["pop_size"], 15)
        return c

    def judge(self, tr, r):
        a = tr.case["algo"]
        cache = {}
        pops = [("initial population", tr.init_pop)] + [(f"population after epoch {e['epoch']}", e.get("pop")) for e in tr.epochs]
        for where, pop in pops:
            if pop is None:
                continue
            r.n("populations")
            for i, rec in enumerate(pop):
                r.n("agents_recomputed")
                m = Q.honest(tr, rec, cache)
                if m:
                    r.v(f"inconsistent:{a}", f"{where}, agent {i}: {m}", solution=None if rec is None else rec[0])
                    return


CHECK = C04()
