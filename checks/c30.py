import json, os
from mon import core, gen, keep
from mon.sweep import Sweep

SPEC = json.load(open(os.path.join(core.ROOT, "spec", "keep.json")))


class C30(Sweep):
    id = "C30"
    technique = "online monitor of the population's fitness ranks and size after every epoch, against the class (elitist, monotone, constant size) recorded per optimizer"
    rule = ("case = optimizer x variable mix x objective x direction x mode x hyper-parameters; after every epoch: number of agents, best of the population against the best of all objective calls so "
            "far, every rank of the sorted fitness against the epoch before; distinct by configuration")
    assumptions = ("finite objectives", "the classes (spec/keep.json) were recorded on the tree under study over several hundred runs per optimizer, only those without a single exception are judged")
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 12, "thorough": 120}
    modes = ("single", "swarm", "single", "thread")
    keep_pops = False
    floors = {"epochs_elitist": 10000, "epochs_monotone": 10000, "epochs_sized": 15000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        elif i % 3 == 1:
            c["epoch"] = 15
        return c

    def judge(self, tr, r):
        c = tr.case
        a, s = c["algo"], SPEC.get(c["algo"])
        if s is None or not tr.epochs:
            return
        n, lost, sunk, sizes = keep.facts(tr)
        if not s["lost"]:
            r.n("epochs_elitist", n)
            if lost:
                e, got, best = lost[0]
                r.v(f"dropped:{a}", f"after epoch {e} the best of the population is {got!r}, but {best!r} had been found ({c['minmax']}); in every recorded run this optimizer kept its best solution in the population")
        if not s["sunk"]:
            r.n("epochs_monotone", n)
            if sunk:
                e, k, x, y = sunk[0]
                r.v(f"worse:{a}", f"in epoch {e} the agent of rank {k} became worse, from {x!r} to {y!r} ({c['minmax']}); in every recorded run no rank of this optimizer's population ever got worse")
        if not s["size_other"] and c.get("pop_size"):
            r.n("epochs_sized", n)
            if sizes != {c["pop_size"]}:
                r.v(f"size:{a}", f"pop_size is {c['pop_size']}, the population had {sorted(sizes)} agents")


CHECK = C30()
