import numpy as np
from mon import engine as E, oracles as Q
from mon.sweep import Sweep

LISTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")


def digest(h):
    d = {nm: [E.agent_rec(x) for x in getattr(h, nm)] for nm in LISTS}
    d["pops"] = [[E.agent_rec(x) for x in p] for p in h.list_population]
    for nm in ("list_global_best_fit", "list_current_best_fit", "list_diversity", "list_epoch_time"):
        d[nm] = [float(v) for v in getattr(h, nm)]
    for nm in ("list_exploration", "list_exploitation"):
        d[nm] = [float(v) for v in np.ravel(getattr(h, nm))]
    return d


def same(a, b):
    for nm in a:
        if nm == "pops":
            if len(a[nm]) != len(b[nm]) or any(len(p) != len(q) or not all(Q.eq_rec(x, y) for x, y in zip(p, q)) for p, q in zip(a[nm], b[nm])):
                return nm
        elif nm in LISTS:
            if len(a[nm]) != len(b[nm]) or not all(Q.eq_rec(x, y) for x, y in zip(a[nm], b[nm])):
                return nm
        elif not np.array_equal(a[nm], b[nm], equal_nan=True):
            return nm
    return None


class C09(Sweep):
    id = "C09"
    technique = "trace monitor: history entries recomputed from observed populations and compared with snapshots taken when they were recorded"
    rule = ("case = optimizer x variable mix x direction x save_population on/off x termination x a second run on the same object; every entry is "
            "recomputed and compared with its snapshot; non-trivial = at least one objective call; distinct by configuration, #calls and #improvements")
    per_algo = {"quick": 11, "thorough": 110}
    modes = ("single", "single", "swarm", "thread")
    floors = {"epochs_judged": 12000, "second_runs": 200, "saved_populations": 3000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        if c["mode"] == "thread":
            c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        c["save_population"] = i % 3 != 0
        if i % 4 == 1:
            c["termination"] = {"max_fe": int(rng.integers(30, 600))}
        elif i % 4 == 2:
            c["epoch"] = 25
        c["second"] = i % 3 == 1
        if i % 11 == 7:     # spaces with a single point: no diversity at all
            c["space"] = [{"kind": "int", "lb": [2, -3], "ub": [2, -3]}] if rng.random() < 0.5 else [{"kind": "float", "lb": [1.5, 2.0], "ub": [1.5, 2.0]}]
            c["epoch"] = 4
        return c

    def judge(self, tr, r):
        c = tr.case
        a, mm = c["algo"], c["minmax"]
        if not tr.finished:
            return
        h = tr.model.history
        n = len(tr.epochs)
        lens = {nm: len(getattr(h, nm)) for nm in LISTS + ("list_global_best_fit", "list_current_best_fit", "list_diversity", "list_epoch_time")}
        lens["list_exploration"], lens["list_exploitation"] = len(h.list_exploration), len(h.list_exploitation)
        bad = {nm: v for nm, v in lens.items() if v != n}
        if bad:
            r.v(f"length:{a}", f"{n} epochs were executed but the history has {bad} entries")
            return
        if len(h.list_population) != (n if c["save_population"] else 0):
            r.v(f"length:{a}", f"{n} epochs, save_population={c['save_population']}, but {len(h.list_population)} populations are recorded")
            return
        if getattr(h, "epoch", n) != n:
            r.v(f"length:{a}", f"{n} epochs were executed, history.epoch = {h.epoch}")
        for i, e in enumerate(tr.epochs):
            r.n("epochs_judged")
            for nm in LISTS:
                if not Q.eq_rec(E.agent_rec(getattr(h, nm)[i]), e["rec"][nm]):
                    r.v(f"mutated-{nm}:{a}", f"{nm}[{i}] was {e['rec'][nm][1]!r} when recorded and is {getattr(h, nm)[i].target.fitness!r} after the run",
                        then=e["rec"][nm][0], now=getattr(h, nm)[i].solution)
            if not np.array_equal([h.list_global_best_fit[i], h.list_current_best_fit[i]], e["rec_fit"][:2], equal_nan=True):
                r.v(f"mutated-fit:{a}", f"fitness entries of epoch {i + 1} changed from {e['rec_fit'][:2]}")
            if not (h.list_global_best_fit[i] == e["rec"]["list_global_best"][1] and h.list_current_best_fit[i] == e["rec"]["list_current_best"][1]) \
                    and h.list_global_best_fit[i] == h.list_global_best_fit[i]:
                r.v(f"fit-disagrees:{a}", f"epoch {i + 1}: fitness lists say {h.list_global_best_fit[i]!r}, {h.list_current_best_fit[i]!r}; recorded agents "
                    f"{e['rec']['list_global_best'][1]!r}, {e['rec']['list_current_best'][1]!r}")
            if not h.list_epoch_time[i] >= 0:
                r.v(f"runtime:{a}", f"runtime of epoch {i + 1} is {h.list_epoch_time[i]!r}")
            if "pop" in e:
                m = np.array([p[0] for p in e["pop"]], float)
                if np.all(np.isfinite(m)):
                    med = np.sort(m, axis=0)
                    k = len(m)
                    med = (med[(k - 1) // 2] + med[k // 2]) / 2.0
                    d = float(np.mean(np.mean(np.abs(m - med), axis=0)))
                    if abs(d - h.list_diversity[i]) > 1e-9 * max(1.0, abs(d)):
                        r.v(f"diversity:{a}", f"epoch {i + 1}: recorded diversity {h.list_diversity[i]!r}, recomputed {d!r}")
                if c["save_population"]:
                    r.n("saved_populations")
                    saved = [E.agent_rec(x) for x in h.list_population[i]]
                    key = lambda p: (Q.key_of(p[0]), repr(p[1]))
                    if sorted(map(key, saved)) != sorted(map(key, e["pop"])):
                        r.v(f"population:{a}", f"the population saved for epoch {i + 1} is not the population at the end of that epoch "
                            f"({len(saved)} / {len(e['pop'])} agents)")
                    if "rec_pop" in e and not all(Q.eq_rec(x, y) for x, y in zip(saved, e["rec_pop"])):
                        r.v(f"mutated-population:{a}", f"the population saved for epoch {i + 1} changed after it was recorded")
            if r.viol:
                return
        er, ei, dv = np.asarray(h.list_exploration, float), np.asarray(h.list_exploitation, float), np.asarray(h.list_diversity, float)
        if n and np.all(np.isfinite(dv)):
            if not (np.all(er >= -1e-9) and np.all(er <= 100 + 1e-9) and np.allclose(er + ei, 100, atol=1e-9) and np.allclose(er, 100 * dv / (dv.max() or 1.0), atol=1e-6)):
                r.v(f"exploration:{a}", f"exploration {er.tolist()[:5]} exploitation {ei.tolist()[:5]} for diversity {dv.tolist()[:5]}")
        if c["second"]:
            before = digest(h)
            ret = E.agent_rec(tr.g_best)
            t2 = E.run_case(dict(c, seed=c["seed"] + 1, second=False), model=tr.model, keep_pops=False, cpu_limit=self.cpu_limit)
            if t2.finished:
                r.n("second_runs")
                if tr.model.history is h:
                    r.v(f"shared-history:{a}", "the second run appends to the history object of the first one")
                    return
                d = same(before, digest(h))
                if d:
                    r.v(f"changed-by-later-run:{a}", f"{d} of the first run's history changed during a later run")
                if not Q.eq_rec(ret, E.agent_rec(tr.g_best)):
                    r.v(f"changed-by-later-run:{a}", "the agent returned by the first run changed during a later run")


CHECK = C09()
