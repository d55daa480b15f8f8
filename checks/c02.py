from mon import engine as E, oracles as Q
from mon.sweep import Sweep


def k(x):
    return Q.key_of(Q.np.asarray(x, float) + 0.0)


class C02(Sweep):
    id = "C02"
    technique = "runtime monitor: replay of every reported agent against the user's function and the recorded evaluation log"
    rule = ("case = optimizer x variable mix x objective (scalar / weighted) x direction x mode x hyper-parameters; every best/worst agent of the history and the "
            "returned agent is recomputed; non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    assumptions = ("the objective is deterministic in the encoded vector",)
    per_algo = {"quick": 13, "thorough": 120}
    modes = ("single", "single", "swarm", "thread")
    objs = ["sphere", "rastrigin", "linear", "negative", "mixed", "maxabs", "edge", "multi2", "multi3"]
    floors = {"agents_recomputed": 60000, "runs": 1500}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        set_weights(rng, c)
        if i % 9 == 5:
            c["epoch"] = 40
            c["pop_size"] = c["pop_size"] and min(c["pop_size"], 15)
        return c

    def judge(self, tr, r):
        a = tr.case["algo"]
        cache = {}
        evald = {k(x) for x, _, _ in tr.obj.evals}

        def check(rec, where):
            r.n("agents_recomputed")
            m = Q.honest(tr, rec, cache)
            if m:
                r.v(f"dishonest:{a}", f"{where}: {m}", solution=None if rec is None else rec[0])
                return False
            if k(rec[0]) not in evald:
                r.v(f"never-evaluated:{a}", f"{where}: this solution was never passed to the objective in this run", solution=rec[0])
                return False
            return True

        if tr.init_pop is not None and not check(tr.init_gbest, "best of the initial population"):
            return
        for e in tr.epochs:
            if "rec" not in e:
                continue
            for nm, rec in e["rec"].items():
                if not check(rec, f"{nm} recorded for epoch {e['epoch']}"):
                    return
            if not check(e["g_after"], f"optimizer.g_best after epoch {e['epoch']}"):
                return
        if tr.finished:
            if not check(E.agent_rec(tr.g_best), "returned agent"):
                return
            h = tr.model.history
            for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
                for n, ag in enumerate(getattr(h, nm)):
                    if not check(E.agent_rec(ag), f"history {nm}[{n}] after the run"):
                        return


def set_weights(rng, c):
    n = {"multi2": 2, "multi3": 3}.get(c["obj"], 1)
    u = rng.random()
    if n > 1:
        c["weights"] = [float(v) for v in Q.np.round(rng.uniform(0.1, 2.0, n), 3)] if u < 0.6 else None
    elif u < 0.15:
        c["weights"] = [2.5]
    if n > 1 and c["weights"] is None:
        c.pop("weights")


CHECK = C02()
