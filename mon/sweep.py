"""Base of all checks that run the whole optimizer catalogue."""
import json
import numpy as np
from . import core, engine as E, gen, oracles as Q

FLAVOURS = ["float", "float", "mixed", "int", "float", "perm", "float", "string", "bin", "mixed_det", "float", "tfbin", "cat", "bool", "seq"]


class Sweep(core.Check):
    per_algo = {"quick": 8, "thorough": 60}
    flavours = FLAVOURS
    modes = ("single", "swarm")
    cpu_limit = 20.0
    budget_evals = 60000
    keep_pops = True
    objs = None
    slow = {"SingleGA": 1}

    def make_case(self, rng, algo, i, tier):
        fl = self.flavours[(i + int(rng.integers(0, 3))) % len(self.flavours)]
        mode = self.modes[int(rng.integers(0, len(self.modes)))]
        c = gen.base_case(rng, algo, flavour=fl, params="random" if i % 2 else "default", mode=mode,
                          obj=None if self.objs is None else str(rng.choice(self.objs)))
        c["budget"] = self.budget_evals
        if i % 2:
            gen.rotate(c, i // 2)
        if self.wide_every and i % self.wide_every == self.wide_every - 2 and fl in ("float", "int", "perm", "bin"):
            n = int(rng.choice([16, 17, 24, 40]))       # branches for many dimensions
            c["space"] = [gen.float_space(rng, n)] if fl in ("float", "int") else [{"kind": "perm", "set": list(range(n))}] if fl == "perm" else [{"kind": "bin", "n": n}]
            c["epoch"] = min(c["epoch"], 5)
        return c

    wide_every = 6
    extra_long = {"quick": 0, "thorough": 0}      # runs of more than 100 epochs per optimizer

    def make_long(self, rng, algo, i):
        c = gen.long_case(rng, algo, i)
        if c["mode"] not in self.modes:
            c["mode"] = self.modes[0]
        c["budget"] = 8 * self.budget_evals
        return c

    def algos(self):
        return gen.ALGOS

    def cases(self, seed, tier):
        out = []
        for i in range(self.per_algo[tier]):
            for algo in self.algos():
                rng = gen.rng_for(seed, self.id, algo, i)
                c = self.make_case(rng, algo, i, tier)
                if c is not None:
                    out.append(c)
        for i in range(self.extra_long[tier]):
            for algo in self.algos():
                c = self.make_long(gen.rng_for(seed, self.id, algo, "long", i), algo, i)
                if c is not None:
                    out.append(c)
        order = gen.rng_for(seed, self.id, "order").permutation(len(out))
        return [out[i] for i in order]

    def run(self, case):
        r = core.R()
        tr = E.run_case(case, cpu_limit=self.cpu_limit, keep_pops=self.keep_pops)
        r.n("runs")
        r.n("evaluations_observed", len(tr.obj.evals))
        r.n("epochs_observed", len(tr.epochs))
        if tr.model is None:
            r.n("ctor_rejected")
            r.skip = "constructor rejected the configuration"
            return r
        if tr.error is not None and not self.judge_errors:
            r.n("runs_ended_by_error")
            r.skip = f"run ended with {type(tr.error).__name__}"
        if tr.obj.evals:
            r.sig(*Q.nontrivial(tr))
        self.judge(tr, r)
        if tr.finished and r.sample_text is None:
            r.sample(f"{len(tr.epochs)} epochs, {len(tr.obj.evals)} objective calls, returned fitness {tr.g_best.target.fitness!r}, "
                     f"history of bests {[float(v) for v in tr.model.history.list_global_best_fit][:5]}")
        return r

    judge_errors = False

    def judge(self, tr, r):
        raise NotImplementedError
