import math
from mon import engine as E, oracles as Q
from mon.sweep import Sweep


class C03(Sweep):
    id = "C03"
    technique = "online trace monitor: monotonicity and dominance of the recorded best over every population"
    rule = ("case = optimizer x variable mix x objective x direction x mode x hyper-parameters; after every epoch the recorded global best is compared with its "
            "predecessor and with every agent seen so far; non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    assumptions = ("finite objectives",)
    extra_long = {"quick": 1, "thorough": 6}
    per_algo = {"quick": 15, "thorough": 150}
    modes = ("single", "single", "swarm", "thread")
    floors = {"epochs_judged": 15000, "improvements": 1000, "agents_compared": 200000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        if i % 5 == 2:
            c["epoch"] = 30
            c["pop_size"] = c["pop_size"] and min(c["pop_size"], 15)
        return c

    def judge(self, tr, r):
        c = tr.case
        a, mm = c["algo"], c["minmax"]
        if tr.init_pop is None:
            return
        fits = [p[1] for p in tr.init_pop]
        if any(f is None for f in fits):
            r.v(f"no-target:{a}", "an agent of the initial population has no target")
            return
        if not fits:        # a tabu search that starts with an empty list of visited positions
            fits = [tr.init_gbest[1]]
        best = Q.best_of(fits, mm)
        worst = Q.best_of(fits, "max" if mm == "min" else "min")
        if tr.init_gbest[1] != best:
            r.v(f"init-best:{a}", f"the best after initialisation is {tr.init_gbest[1]!r}, the best agent of the initial population has {best!r}")
            return
        prev = tr.init_gbest[1]
        for e in tr.epochs:
            if "rec" not in e or "pop" not in e:
                continue
            pf = [p[1] for p in e["pop"]]
            if any(f is None for f in pf):
                r.v(f"no-target:{a}", f"an agent of the population after epoch {e['epoch']} has no target")
                return
            if any(math.isnan(f) for f in pf) or math.isnan(prev):
                r.n("nan_runs")
                return
            r.n("epochs_judged")
            r.n("agents_compared", len(pf))
            g, gb, cb = e["g_after"][1], e["rec"]["list_global_best"][1], e["rec"]["list_current_best"][1]
            cw, gw = e["rec"]["list_current_worst"][1], e["rec"]["list_global_worst"][1]
            pb, pw = Q.best_of(pf, mm), Q.best_of(pf, "max" if mm == "min" else "min")
            best = Q.best_of([best, pb], mm)
            worst = Q.best_of([worst, pw], "max" if mm == "min" else "min")
            if g != prev:
                r.n("improvements")
            ep = f"epoch {e['epoch']}"
            if Q.worse(g, prev, mm) or Q.worse(gb, prev, mm):
                r.v(f"worsens:{a}", f"{ep}: the global best went from {prev!r} to {g!r} ({mm})")
                return
            if Q.worse(g, best, mm) or Q.worse(gb, best, mm):
                r.v(f"dominated:{a}", f"{ep}: the recorded global best is {g!r} but an agent with {best!r} was in a population already ({mm})")
                return
            if cb != pb:
                r.v(f"current-best:{a}", f"{ep}: recorded current best {cb!r}, best of the population {pb!r}")
                return
            if cw != pw:
                r.v(f"current-worst:{a}", f"{ep}: recorded current worst {cw!r}, worst of the population {pw!r}")
                return
            if Q.better(gw, worst, mm):
                r.v(f"global-worst:{a}", f"{ep}: recorded global worst {gw!r}, but {worst!r} was seen")
                return
            if not any(Q.eq_rec(e["rec"]["list_current_best"], p) for p in e["pop"]):
                r.v(f"current-best-foreign:{a}", f"{ep}: the recorded current best is not an agent of the population")
                return
            prev = g
        if tr.finished:
            if not tr.model.history.list_global_best:
                return
            last = E.agent_rec(tr.model.history.list_global_best[-1])
            if not Q.eq_rec(E.agent_rec(tr.g_best), last):
                r.v(f"returned:{a}", f"returned agent {tr.g_best.target.fitness!r} is not the last recorded global best {last[1]!r}")
            if Q.worse(tr.g_best.target.fitness, best, mm):
                r.v(f"dominated:{a}", f"returned {tr.g_best.target.fitness!r} but {best!r} was in a population ({mm})")
            gl = [float(t) for t in tr.model.history.list_global_best_fit]
            for x, y in zip(gl, gl[1:]):
                if Q.worse(y, x, mm):
                    r.v(f"worsens:{a}", f"list_global_best_fit goes from {x!r} to {y!r} ({mm})")
                    break


CHECK = C03()
