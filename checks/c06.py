import numpy as np
from mon import core, engine as E, gen, oracles as Q, pair
from mon.sweep import Sweep

FL = ["float", "mixed", "int", "perm", "float", "string", "float", "mixed", "bool", "cat", "seq", "bin", "tfbin"]


class C06(Sweep):
    id = "C06"
    technique = ("schedule stress with differential monitoring: the same seeded run in swarm, thread and process mode under injected completion-order delays, compared "
                 "on evaluated solutions, every history record and every agent's binding of fitness to solution")
    rule = ("case = parallelisable optimizer x space x objective x direction x number of workers x mode x delay pattern x seed; non-trivial = the evaluations of the "
            "parallel run really overlapped or completed in another order than they were submitted; distinct by configuration, #calls, #improvements")
    assumptions = ("the order in which evaluations of one batch reach the objective is not specified, so evaluations are compared as a multiset per epoch",)
    per_algo = {"quick": 3, "thorough": 30}
    n_process = {"quick": 160, "thorough": 900}
    floors = {"thread_pairs": 350, "process_pairs": 80, "overlapping_runs": 250, "agents_bound": 20000, "fallback_pairs": 40}

    def cases(self, seed, tier):
        out = []

        def one(rng, algo, i, mode):
            fl = FL[(i + int(rng.integers(0, len(FL)))) % len(FL)]
            c = gen.base_case(rng, algo, flavour=fl, params="random" if rng.random() < 0.5 else "default", epoch=int(rng.choice([2, 3, 4])),
                              pop=int(rng.choice([10, 11, 15, 20])))
            c.update(pmode=mode, n_workers=int(rng.choice([2, 3, 4, 6])), budget=30000, save_population=bool(rng.random() < 0.5))
            c["delay"] = float(rng.choice([0.0003, 0.001, 0.003])) if mode == "thread" else float(rng.choice([0.0, 0.002]))
            if rng.random() < 0.2:
                c.update(obj=str(rng.choice(["multi2", "multi3"])))
                c["weights"] = [float(v) for v in np.round(rng.uniform(0.1, 2, 2 if c["obj"] == "multi2" else 3), 3)]
            if rng.random() < 0.25 and c["pop_size"] and gen.SPEC[algo]["defaults"].get("pop_size") and algo != "OriginalPO":
                c["starting"] = {"seed": int(rng.integers(0, 2 ** 31)), "as": "array"}
            if mode == "process":
                c["epoch"] = 2
                c["n_workers"] = int(rng.choice([2, 3]))
            return c

        for algo in gen.ALGOS:
            par = gen.SPEC[algo]["parallel"]
            for i in range(self.per_algo[tier] if par else 1):
                out.append(one(gen.rng_for(seed, "C06", algo, i), algo, i, "thread"))
        par = [a for a in gen.ALGOS if gen.SPEC[a]["parallel"]]
        for b in range(self.n_process[tier]):
            rng = gen.rng_for(seed, "C06p", b)
            order = gen.rng_for(seed, "C06p", b // len(par)).permutation(len(par))
            out.append(one(rng, par[int(order[b % len(par)])], b, "process"))
        order = gen.rng_for(seed, self.id, "order").permutation(len(out))
        return [out[i] for i in order]

    def run(self, case):
        r = core.R()
        a, mode = case["algo"], case["pmode"]
        par = gen.SPEC[a]["parallel"]
        t1 = pair.run(dict(case, mode="swarm" if par else "single", delay=0.0), cpu_limit=30)
        if t1.model is None:
            r.skip = "constructor rejected the configuration"
            return r
        if t1.error is not None:
            r.skip = f"reference run ended with {type(t1.error).__name__}"
            return r
        t2 = E.run_case(dict(case, mode=mode), cpu_limit=60)
        remote = bool(t2.remote)
        r.n("thread_pairs" if mode == "thread" and par else "process_pairs" if par else "fallback_pairs")
        r.n("evaluations_observed", len(t2.obj.evals) + len(t2.remote))
        d1, d2 = pair.full_digest(t1), pair.full_digest(t2)
        if mode == "process":
            d1["evals"], d2["evals"] = sorted((0, k) for _, k in d1["evals"]), sorted((0, k) for _, k in d2["evals"])
        elif par:
            d1["evals"], d2["evals"] = sorted(d1["evals"]), sorted(d2["evals"])
        m = pair.differ(d1, d2)
        if m:
            r.v(f"{mode if par else 'fallback'}:{a}", f"{mode} mode with {case['n_workers']} workers differs from {'swarm' if par else 'single'} mode: {m}", params=case["params"])
        if par and t2.model is not None and getattr(t2.model, "mode", None) != mode:
            r.v(f"mode:{a}", f"asked for {mode} mode, but the run was executed in mode {t2.model.mode!r}")
        # binding of fitness to solution
        cache = {}
        for who, rec in [("initial population", x) for x in t2.init_pop or []] + [(f"epoch {e['epoch']}", x) for e in t2.epochs for x in e.get("pop", [])]:
            r.n("agents_bound")
            m = Q.honest(t2, rec, cache)
            if m and not r.viol:
                r.v(f"binding:{mode}:{a}", f"agent of the {who}: {m}")
        over = t2.obj.max_inflight > 1 or len({p for _, _, p in t2.remote}) > 1
        if over:
            r.n("overlapping_runs")
        if over or not par:
            r.sig(*Q.nontrivial(t2), mode, case["n_workers"])
        r.n("worker_processes", len({p for _, _, p in t2.remote}))
        r.sample(f"{mode}: {len(d2['evals'])} evaluations, at most {t2.obj.max_inflight} at once, {len({p for _, _, p in t2.remote})} worker processes, same as swarm")
        return r


CHECK = C06()
