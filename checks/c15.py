import copy
import numpy as np
from mon import core, engine as E, gen, objectives as O, oracles as Q, pair
from mon.sweep import Sweep

FL = ["float", "mixed", "int", "perm", "float", "string", "float", "mixed_det", "bool", "cat", "seq", "bin", "tfbin"]
OBJS = ["sphere", "rastrigin", "linear", "negative", "mixed", "step", "huge", "edge", "maxabs", "asint"]


def describe(v):
    """Everything of a caller-owned value that a later use of it could depend on."""
    if isinstance(v, dict):
        return {k: describe(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [describe(x) for x in v]
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return repr(v)
    return type(v).__name__


def var_state(b):
    out = []
    for v in (b if isinstance(b, (list, tuple)) else [b]):
        out.append((type(v).__name__, v.name, np.array(v.lb).tobytes(), np.array(v.ub).tobytes(), v.n_vars))
    return out


class C15(Sweep):
    id = "C15"
    technique = ("differential run-time monitoring of histories of runs: runs repeated on used and interleaved objects against fresh ones, with snapshots of earlier results "
                 "and of the caller's data compared afterwards")
    rule = ("case = optimizer x two or three problems of different dimension, variable mix, direction and objective x seeds x order of runs (sequential, shared problem "
            "object, interleaved inside an epoch); non-trivial = at least two completed runs with different numbers of dimensions or directions; distinct by configuration and #calls")
    per_algo = {"quick": 4, "thorough": 40}
    floors = {"reused_runs": 1200, "interleaved_runs": 200, "results_rechecked": 1200, "shared_problem_runs": 250, "caller_data_checked": 1200}

    def cases(self, seed, tier):
        out = []
        for i in range(self.per_algo[tier]):
            for algo in gen.ALGOS:
                rng = gen.rng_for(seed, "C15", algo, i)
                ep = int(rng.choice([2, 3, 5, 8]))
                base = gen.base_case(rng, algo, flavour="float", params="random" if i % 2 else "default", epoch=ep, pop=int(rng.choice([10, 11, 15, 20, 24])))
                probs = []
                for k in range(3):
                    fl = FL[int(rng.integers(0, len(FL)))]
                    p = {"space": gen.space_for(rng, fl), "obj": str(rng.choice(OBJS)), "minmax": str(rng.choice(["min", "max"])),
                         "seed": int(rng.integers(0, 2 ** 31)), "mode": str(rng.choice(["single", "swarm"])), "save_population": bool(rng.random() < 0.5)}
                    if rng.random() < 0.3:
                        p["termination"] = {str(rng.choice(["max_epoch", "max_early_stop"])): int(rng.choice([1, 2, 3]))}
                    if rng.random() < 0.2 and not (base["pop_size"] is None or algo == "OriginalPO"):
                        p["starting"] = {"seed": int(rng.integers(0, 2 ** 31)), "as": str(rng.choice(["array", "lists", "tuples"]))}
                    probs.append(p)
                out.append({"base": base, "probs": probs, "kind": ["reuse", "interleave", "shared", "reuse"][(i + int(rng.integers(0, 4))) % 4], "budget": 40000})
        order = gen.rng_for(seed, self.id, "order").permutation(len(out))
        return [out[i] for i in order]

    def fresh(self, c):
        t = pair.run(c)
        return t, pair.full_digest(t)

    def run(self, case):
        r = core.R()
        a = case["base"]["algo"]
        cs = [dict(case["base"], **p, budget=case["budget"]) for p in case["probs"]]
        refs = [self.fresh(c) for c in cs]
        if any(t.model is None for t, _ in refs):
            r.skip = "constructor rejected the configuration"
            return r
        if any(t.error is not None for t, _ in refs):
            r.skip = "a reference run ended with " + "/".join(type(t.error).__name__ for t, _ in refs if t.error is not None)
            return r
        r.n("evaluations_observed", sum(len(t.obj.evals) for t, _ in refs))
        if len({(E.n_dims(c["space"]), c["minmax"]) for c in cs}) > 1:
            r.sig(a, case["kind"], *[(E.n_dims(c["space"]), c["minmax"], len(t.obj.evals)) for c, (t, _) in zip(cs, refs)])
        getattr(self, case["kind"])(case, cs, refs, r)
        r.sample(f"{case['kind']}: dimensions {[E.n_dims(c['space']) for c in cs]}, directions {[c['minmax'] for c in cs]}, "
                 f"calls {[len(t.obj.evals) for t, _ in refs]}: all as on fresh objects")
        return r

    def reuse(self, case, cs, refs, r):
        a = case["base"]["algo"]
        model, done = None, []
        params0 = None
        for k, i in enumerate([0, 1, 0, 2]):
            obj = O.Objective(cs[i]["obj"], budget=case["budget"])
            with_problem = E.build_problem(cs[i], obj)
            before = (describe({k2: v for k2, v in with_problem.items() if k2 not in ("obj_func",)}), var_state(with_problem["bounds"]),
                      describe(cs[i].get("termination") or {}))
            term = copy.deepcopy(cs[i].get("termination"))
            c = dict(cs[i], termination=term)
            t = pair.run(c, model=model, obj=obj, problem=with_problem)
            model = t.model
            if params0 is None:
                params0 = describe(model.get_parameters())
            d = pair.full_digest(t)
            r.n("reused_runs" if k else "first_runs")
            m = pair.differ(refs[i][1], d)
            if m and not r.viol:
                r.v(f"reuse:{a}", f"run {k + 1} on the same optimizer object (problem {i + 1}, after {k} earlier runs) differs from the run on a fresh object: {m}", params=case["base"]["params"])
            after = (describe({k2: v for k2, v in with_problem.items() if k2 not in ("obj_func",)}), var_state(with_problem["bounds"]), describe(term or {}))
            r.n("caller_data_checked")
            for what, x, y in zip(("problem dictionary", "variables of the problem", "termination settings"), before, after):
                if x != y:
                    r.v(f"caller:{what}:{a}", f"the run modified the caller's {what}: {x!r:.300} -> {y!r:.300}")
            if t.starting is not None and not np.array_equal(np.array(t.starting, float), t.starting_copy):
                r.v(f"caller:starting:{a}", "the run modified the caller's starting solutions")
            if describe(model.get_parameters()) != params0:
                r.v(f"params:{a}", f"the reported parameters changed during a run: {params0} -> {describe(model.get_parameters())}")
            if t.finished:
                done.append((t, model.history, t.g_best, d))
            # results handed out earlier stay what they were
            for j, (t0, h0, g0, d0) in enumerate(done):
                r.n("results_rechecked")
                now = {"gb": [float(v) for v in h0.list_global_best_fit], "cb": [float(v) for v in h0.list_current_best_fit], "div": [float(v) for v in h0.list_diversity],
                       "gw": [float(x.target.fitness) for x in h0.list_global_worst], "gsol": [Q.key_of(x.solution) for x in h0.list_global_best],
                       "csol": [Q.key_of(x.solution) for x in h0.list_current_best], "result": (Q.key_of(g0.solution), float(g0.target.fitness))}
                for f, v in now.items():
                    w = d0[f]
                    same = v == w or (isinstance(v, list) and len(v) == len(w) and all(p == q or (p != p and q != q) for p, q in zip(v, w))) or \
                        (f == "result" and v[0] == w[0] and v[1] != v[1])
                    if not same:
                        r.v(f"earlier:{a}", f"after run {k + 1} the {f} of run {j + 1} is no longer what it was")
                        break

    def interleave(self, case, cs, refs, r):
        """A second optimizer of the same class works on another problem inside every epoch of the first; a third one shares nothing but the class."""
        a = case["base"]["algo"]
        seen = []

        def hook(model, epoch):
            if epoch <= 3:
                i = 1 if epoch % 2 else 2
                t = self.nested(cs[i])
                seen.append((i, t))

        t = pair.run(cs[0], evolve_hook=hook, cpu_limit=60)
        m = pair.differ(refs[0][1], pair.full_digest(t))
        r.n("interleaved_runs")
        if m:
            r.v(f"interleaved:{a}", f"a run during which other optimizers of the same class were run differs from the undisturbed run: {m}", params=case["base"]["params"])
        for i, d in seen:
            r.n("nested_runs")
            m = pair.differ(refs[i][1], d)
            if m:
                r.v(f"interleaved:{a}", f"a run started while another optimizer of the same class was running differs from the undisturbed run: {m}", params=case["base"]["params"])

    def nested(self, c):
        obj = O.Objective(c["obj"], budget=c["budget"])
        model = E.build_model(c)
        tr = E.Trace()
        tr.case, tr.obj, tr.model, tr.remote, tr.finished, tr.error, tr.g_best = c, obj, model, [], False, None, None
        phase = [0]
        orig = model.evolve

        def evolve(epoch, *x, **k):
            obj.phase = epoch
            return orig(epoch, *x, **k)

        model.evolve = evolve
        try:
            tr.g_best = model.solve(E.build_problem(c, obj), mode=c["mode"], termination=c.get("termination"), starting_solutions=E.starting_for(c), seed=c["seed"])
            tr.finished = True
        except Exception as e:
            tr.error = e
        return pair.full_digest(tr)

    def shared(self, case, cs, refs, r):
        """One Problem object solved again and again, by two optimizers in turn."""
        a = case["base"]["algo"]
        for i in (0, 1):
            obj = O.Objective(cs[i]["obj"], budget=case["budget"])
            P = E.build_problem(dict(cs[i], as_problem=True), obj)
            model = None
            other = E.ALL[["OriginalPSO", "OriginalWOA", "OriginalGA", "OriginalHS"][len(a) % 4]](epoch=2, pop_size=10)
            for k in range(3):
                obj.evals.clear()
                obj.phase = 0
                t = pair.run(cs[i], model=model, obj=obj, problem=P)
                r.n("shared_problem_runs")
                m = pair.differ(refs[i][1], pair.full_digest(t))
                if m and not r.viol:
                    r.v(f"shared-problem:{a}", f"run {k + 1} on a Problem object used before differs from the run on a fresh problem: {m}", params=case["base"]["params"])
                model = t.model if k == 0 else None
                with pair.quiet():
                    other.solve(P, seed=cs[i]["seed"] // 2 + k)


CHECK = C15()
