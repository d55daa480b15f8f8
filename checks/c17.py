import os
import traceback
from mon import core, engine as E, gen, objectives as O
from mon.sweep import Sweep


def site(e):
    s = "?"
    for f in traceback.extract_tb(e.__traceback__):
        if "/mealpy/" in f.filename:
            s = f"{os.path.basename(f.filename)}.{f.name}"
    return s


class C17(Sweep):
    id = "C17"
    technique = "stress workload over the whole catalogue with a crash monitor, an evaluation budget and a CPU-time watchdog"
    rule = ("case = optimizer x dimension (1..) x variable mix x objective (flat, huge, negative, step, boundary optimum, ...) x direction x mode x accepted "
            "hyper-parameters (and numbers just outside the recorded ranges: refused, or else able to run); non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    assumptions = ("at most 200000 evaluations and 20 s of CPU time are allowed for runs that nominally need a few thousand evaluations",)
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 20, "thorough": 200}
    modes = ("single", "single", "swarm")
    keep_pops = False
    judge_errors = True
    budget_evals = 200000
    floors = {"completed": 5500, "completed_small": 1800, "completed_over_100_epochs": 150, "values_beyond_the_range_refused": 2500}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if i % 10 == 9:
            c["epoch"] = 60
            c["pop_size"] = c["pop_size"] and min(c["pop_size"], 15)
        if i % 10 == 8:
            c["epoch"] = int(rng.choice([1, 2, 3]))
        if i % 5 == 2:        # many dimensions
            n = int(rng.choice([20, 40, 64, 100]))
            c["space"] = [gen.float_space(rng, n)] if rng.random() < 0.8 else [{"kind": "perm", "set": list(range(n))}] if rng.random() < 0.6 else [{"kind": "bin", "n": n}]
            c["epoch"] = min(c["epoch"], 7)
        return c

    small = {"quick": 14, "thorough": 80}       # cases with the smallest populations per optimizer

    def cases(self, seed, tier):
        out = super().cases(seed, tier)
        for i in range(self.small[tier]):
            for algo in self.algos():
                c = gen.small_case(gen.rng_for(seed, self.id, algo, "small", i), algo, i)
                c["budget"] = self.budget_evals
                c["small"] = True
                out.append(c)
            for algo in self.algos():
                for name, v in gen.beyond(algo) if i % 14 == 0 else []:
                    rng = gen.rng_for(seed, self.id, algo, "beyond", name, v, i)
                    c = gen.base_case(rng, algo, pop=10, epoch=20, obj=str(rng.choice(["sphere", "rastrigin", "linear", "negative"])), mode=str(rng.choice(["single", "swarm"])))
                    c["params"] = dict(c["params"], **({name: v} if name not in ("epoch", "pop_size") else {}))
                    if name in ("epoch", "pop_size"):
                        c[name] = v
                    c.update(beyond=name, budget=self.budget_evals)
                    out.append(c)
        return [out[i] for i in gen.rng_for(seed, self.id, "order2").permutation(len(out))]

    def run(self, case):
        if case.get("beyond"):
            try:
                E.build_model(case)
            except Exception:
                r = core.R()
                r.n("values_beyond_the_range_refused")
                return r
        return super().run(case)

    def judge(self, tr, r):
        a = tr.case["algo"]
        if tr.finished:
            r.n("completed")
            r.n("completed_beyond_the_range", bool(tr.case.get("beyond")))
            r.n("completed_small", bool(tr.case.get("small")))
            r.n("completed_over_100_epochs", len(tr.epochs) > 100)
            if tr.g_best is None or tr.g_best.target is None:
                r.v(f"no-result:{a}", "the run returned without a best agent")
            if len(tr.epochs) != tr.case["epoch"]:
                r.v(f"epochs:{a}", f"{len(tr.epochs)} epochs executed instead of {tr.case['epoch']}")
            return
        e = tr.error
        if isinstance(e, O.BudgetExceeded):
            r.v(f"endless:{a}", f"more than {tr.case['budget']} evaluations in {tr.case['epoch']} epochs ({len(tr.epochs)} completed)")
        elif isinstance(e, E.Watchdog):
            r.v(f"endless:{a}", f"{e} ({len(tr.obj.evals)} evaluations, {len(tr.epochs)} of {tr.case['epoch']} epochs completed)")
        else:
            r.v(f"crash:{a}:{type(e).__name__}:{site(e)}", f"{type(e).__name__}: {e} in epoch {getattr(tr, 'begun', 0)}", params=tr.case["params"])


CHECK = C17()
