from mon import oracles as Q, engine as E
from mon.sweep import Sweep


class C01(Sweep):
    id = "C01"
    technique = "runtime monitor at the objective boundary and on populations/history: domain oracle"
    rule = ("case = optimizer x variable mix x dimension x objective x direction x mode x hyper-parameters, drawn per optimizer from the seed; "
            "non-trivial = at least one objective call observed; distinct by (optimizer, variable mix, dims, objective, direction, mode, pop, #calls, #improvements)")
    assumptions = ("finite deterministic objectives", "lb < ub for every continuous variable")
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 22, "thorough": 160}
    modes = ("single", "single", "swarm", "thread")
    floors = {"evaluations_observed": 100000, "vectors_checked": 100000, "decoded_checked": 5000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"] = min(c["epoch"], 5)
            c["n_workers"] = 4
        if i % 11 == 7:
            c["epoch"], c["pop_size"] = 40, c["pop_size"] and min(c["pop_size"], 15)
        return c

    def judge(self, tr, r):
        case = tr.case
        a = case["algo"]
        lo, hi, tol = Q.box(case["space"])

        def check(x, where):
            r.n("vectors_checked")
            m = Q.in_domain(x, lo, hi, tol)
            if m:
                kind = "nonfinite" if "finite" in m else ("shape" if "shape" in m or "numeric" in m else "outside")
                r.v(f"{kind}:{a}", f"{where}: {m}", solution=x)
                return False
            return True

        for n, (x, _, phase) in enumerate(tr.obj.evals):
            if not check(x, f"objective call {n + 1} in epoch {phase} received a vector outside the search space"):
                break
        for e in tr.epochs:
            if "pop" in e:
                if not all(check(p[0], f"population after epoch {e['epoch']}") for p in e["pop"]):
                    break
        if tr.finished:
            h = tr.model.history
            check(tr.g_best.solution, "returned solution")
            for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
                for ag in getattr(h, nm):
                    if not check(ag.solution, f"history {nm}"):
                        break
        xs = [x for x, _, _ in tr.obj.evals]
        pick = xs[:3] + xs[-3:] + xs[::max(1, len(xs) // 10)]
        if tr.finished:
            pick.append(tr.g_best.solution)
        if tr.model is not None and tr.model.problem is not None:
            for x in pick:
                if Q.in_domain(x, lo, hi, tol):
                    continue
                r.n("decoded_checked")
                m = Q.legal(case["space"], tr.model.problem.decode_solution(x))
                if m:
                    r.v(f"illegal-decode:{'+'.join(sorted({s['kind'] for s in case['space']}))}", m, solution=x)
                    break


CHECK = C01()
