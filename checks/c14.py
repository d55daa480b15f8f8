import numpy as np
from mon import core, engine as E, gen, objectives as O, oracles as Q, pair
from mon.sweep import Sweep

# optimizers whose initialisation combines the initial population with further candidates (opposite positions, sub-populations) or reduces it to one point
AUGMENT = {"DevSARO", "OriginalSARO", "DevTPO", "EnhancedTWO", "OppoTWO", "ImprovedSLO", "ModifiedSLO", "OGWO", "OriginalHCO", "OriginalTS"}
FL = ["float", "float", "int", "mixed_det", "float", "perm", "string", "cat", "bool", "bin", "seq", "mixed"]


class C14(Sweep):
    id = "C14"
    technique = "online monitor at the objective boundary and on the population before the first epoch, against the positions handed in"
    rule = ("case = optimizer x container kind x space x mode x direction x legal or wrongly sized starting positions; non-trivial = positions were evaluated, or rejected; "
            "distinct by configuration, container and #calls")
    assumptions = ("starting positions are legal encoded positions; what happens to positions outside the bounds is not judged",
                   "the order of the initial population is judged for optimizers that do not sort it; thread mode may evaluate in any order")
    per_algo = {"quick": 15, "thorough": 120}
    floors = {"started_runs": 1500, "positions_checked": 15000, "rejections_judged": 200, "thread_runs": 100}

    def make_case(self, rng, algo, i, tier):
        if "pop_size" not in gen.SPEC[algo]["defaults"]:
            return None
        fl = FL[int(rng.integers(0, len(FL)))]
        c = gen.base_case(rng, algo, flavour=fl, params="random" if i % 2 else "default", epoch=int(rng.choice([1, 2, 4])), pop=int(rng.choice([10, 11, 15, 20])),
                          mode=str(rng.choice(["single", "single", "swarm", "thread"])))
        if algo == "OriginalPO":
            c["pop_size"] = 4
        if c["mode"] == "thread":
            c.update(n_workers=3, delay=0.0004, epoch=1)
            if not gen.SPEC[algo]["parallel"]:
                c["mode"] = "single"
        c["starting"] = {"seed": int(rng.integers(0, 2 ** 31)), "as": str(rng.choice(["array", "lists", "tuples", "list_arrays"]))}
        c["budget"] = 60000
        c["wrong"] = [None, None, None, None, "rows-", "rows+", "dims-", "dims+", "scalar", "dict"][int(rng.integers(0, 10))] if i % 3 == 2 else None
        return c

    def run(self, case):
        r = core.R()
        a = case["algo"]
        rows = E.starting_for(dict(case, pop_size=case["pop_size"] ** 2 if a == "OriginalPO" else case["pop_size"]))
        if case["wrong"]:
            return self.wrong(case, rows, r)
        ec = dict(case, starting=None)
        obj = O.Objective(case["obj"], budget=case["budget"], delay=case.get("delay", 0.0))
        before = np.array(rows, dtype=float, copy=True)
        tr = self.solve(ec, rows, obj)
        if tr.model is None:
            r.skip = "constructor rejected the configuration"
            return r
        if tr.error is not None and tr.init_pop is None:
            r.v(f"refused:{a}", f"legal starting positions ({case['starting']['as']}) ended the run with {type(tr.error).__name__}: {tr.error}", params=case["params"])
            return r
        if tr.error is not None:
            r.skip = f"run ended with {type(tr.error).__name__}"
            return r
        n = len(before)
        r.n("started_runs")
        r.n(case["mode"] + "_runs")
        r.n("positions_checked", n)
        r.n("evaluations_observed", len(obj.evals))
        first = [e[0] for e in obj.evals if e[2] == 0]
        par = case["mode"] == "thread"
        if a in AUGMENT:
            first = self.subsequence(first, before, par)
        first = first[:n]
        got, want = [Q.key_of(x) for x in first], [Q.key_of(x) for x in before]
        if (sorted(got) != sorted(want)) if par else got != want:
            i = next((i for i in range(min(len(got), n)) if got[i] != want[i]), min(len(got), n))
            r.v(f"evaluated:{a}", f"the first {n} evaluations of the run are not the {n} starting positions (first difference at {i}: "
                f"{first[i].tolist() if i < len(first) else 'nothing'} instead of {before[i].tolist() if i < n else 'nothing'})", params=case["params"])
            return r
        if tr.init_pop is not None and a not in AUGMENT:
            pop = [Q.key_of(x[0]) for x in tr.init_pop]
            same = sorted(pop) == sorted(want) if tr.model.sort_flag else pop == want
            if not same:
                r.v(f"population:{a}", f"the population before the first epoch is not the starting positions ({len(pop)} agents, {len(set(pop) & set(want))} of {len(set(want))} positions kept)",
                    params=case["params"])
        best = Q.best_of([Q.recomputed(tr, x)[1] for x in before], case["minmax"])
        if Q.worse(tr.g_best.target.fitness, best, case["minmax"]):
            r.v(f"worse:{a}", f"the result {tr.g_best.target.fitness} is worse than the best starting position {best} ({case['minmax']})")
        if not np.array_equal(np.array(rows, dtype=float), before):
            r.v(f"caller:{a}", "the run modified the caller's starting positions")
        r.sig(*Q.nontrivial(tr), case["starting"]["as"])
        r.sample(f"{n} positions ({case['starting']['as']}) evaluated first and kept as initial population; result {tr.g_best.target.fitness!r}, best start {best!r}")
        return r

    def subsequence(self, got, want, par):
        keys = [Q.key_of(x) for x in got]
        out, i = [], 0
        for w in want:
            k = Q.key_of(w)
            try:
                j = keys.index(k, 0 if par else i)
            except ValueError:
                break
            out.append(got[j])
            i = j + 1
        return out

    def solve(self, case, rows, obj):
        saved = E.starting_for
        E.starting_for = lambda c: rows
        try:
            return E.run_case(case, obj=obj, keep_pops=False, cpu_limit=20)
        finally:
            E.starting_for = saved

    def wrong(self, case, rows, r):
        a, w = case["algo"], case["wrong"]
        m = np.array(rows, float)
        bad = {"rows-": m[:-1], "rows+": np.vstack([m, m[:1]]), "dims-": m[:, :-1] if m.shape[1] > 1 else np.zeros((len(m), 0)), "dims+": np.hstack([m, m[:, :1]])}.get(w)
        if w == "scalar":
            bad = 5
        if w == "dict":
            bad = {i: list(x) for i, x in enumerate(m)}
        elif w in ("rows-", "rows+", "dims-", "dims+") and case["starting"]["as"] in ("lists", "tuples"):
            bad = [list(x) for x in bad]
        obj = O.Objective(case["obj"], budget=case["budget"])
        saved = E.starting_for
        calls = []

        class Holder:
            pass

        model = E.build_model(case) if self.accepts(case) else None
        if model is None:
            r.skip = "constructor rejected the configuration"
            return r
        err = None
        with pair.quiet():
            try:
                model.solve(E.build_problem(case, obj), mode=case["mode"], n_workers=case.get("n_workers"), starting_solutions=bad, seed=case["seed"])
            except ValueError as e:
                err = e
            except Exception as e:
                err = e
        r.n("rejections_judged")
        r.sig(a, w, case["mode"])
        if err is None:
            r.v(f"accepted:{a}:{w}", f"starting solutions of the wrong shape ({w}) were accepted")
        elif obj.evals:
            r.v(f"late-reject:{a}:{w}", f"{len(obj.evals)} evaluations before starting solutions of the wrong shape ({w}) were rejected with {type(err).__name__}: {err}")
        return r

    def accepts(self, case):
        try:
            E.build_model(case)
            return True
        except ValueError:
            return False


CHECK = C14()
