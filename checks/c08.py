from mon import gen
from mon.sweep import Sweep


class C08(Sweep):
    id = "C08"
    technique = "online monitor: evaluation counter against an independent count of objective calls at every epoch end"
    rule = ("case = optimizer x mode (single, swarm, thread, process) x termination kind x starting solutions x hyper-parameters; counter and true count are compared after "
            "initialisation and after every epoch; non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 11, "thorough": 110}
    flavours = ["float", "mixed", "int", "float"]
    modes = ("single", "single", "swarm", "thread")
    keep_pops = False
    floors = {"epochs_judged": 8000, "process_runs": 5}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        if i == 3 and rng.random() < (0.12 if tier == "quick" else 0.8) and gen.SPEC[algo]["parallel"]:
            c["mode"], c["n_workers"], c["epoch"] = "process", 2, 2
        u = i % 4
        if u == 0:
            c["termination"] = {"max_epoch": 1000}
        elif u == 1:
            c["termination"] = {"max_fe": int(rng.integers(1, 400))}
        if i % 5 == 3 and c["pop_size"]:
            c["starting"] = {"seed": int(rng.integers(1 << 30)), "as": "array"}
        if i % 6 == 5:
            c["second"] = True
        return c

    def judge(self, tr, r):
        a = tr.case["algo"]
        if tr.case["mode"] == "process":
            if tr.finished:
                r.n("process_runs")
                n = len(tr.remote) + len(tr.obj.evals)
                if tr.model.nfe_counter != n:
                    r.v(f"counter:{a}", f"process mode: the counter says {tr.model.nfe_counter} but the objective was called {n} times")
            return
        if tr.init_pop is not None and tr.init_nfe != tr.init_evals:
            r.v(f"counter:{a}", f"after initialisation the counter says {tr.init_nfe} but the objective was called {tr.init_evals} times")
            return
        for e in tr.epochs:
            if "nfe_after" not in e:
                continue
            r.n("epochs_judged")
            if e["nfe_after"] != e["evals_after"]:
                r.v(f"counter:{a}", f"after epoch {e['epoch']} the counter says {e['nfe_after']} but the objective was called {e['evals_after']} times")
                return
        if tr.finished and tr.case.get("second"):
            from mon import engine as E
            c2 = dict(tr.case, seed=tr.case["seed"] + 1, epoch=None)
            t2 = E.run_case(c2, model=tr.model, keep_pops=False, cpu_limit=self.cpu_limit)
            if t2.finished:
                r.n("second_runs")
                if t2.model.nfe_counter != len(t2.obj.evals):
                    r.v(f"counter-second-run:{a}", f"second run of the same optimizer: the counter says {t2.model.nfe_counter} but the objective was called "
                        f"{len(t2.obj.evals)} times")


CHECK = C08()
