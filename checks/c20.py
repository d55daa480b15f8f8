import numpy as np
from scipy import stats
from scipy.special import gamma
from mon import core, engine as E, gen, oracles as Q
from mon.pair import quiet
from mealpy import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target

P_MIN = 1e-10


def make_pop(rng, n, d, kind):
    if kind == "ties":
        f = rng.integers(-2, 3, n).astype(float)
    elif kind == "equal":
        f = np.full(n, float(rng.choice([0.0, -3.5, 1e9])))
    elif kind == "negative":
        f = -np.abs(rng.normal(0, 10, n)) - 5
    elif kind == "huge":
        f = rng.normal(0, 1e15, n)
    elif kind == "tiny":
        f = 5.0 + rng.normal(0, 1e-12, n)
    elif kind == "ints":
        f = rng.integers(-1000, 1000, n)
    elif kind == "sorted":
        f = np.sort(rng.normal(0, 1, n))[::rng.choice([1, -1])]
    elif kind == "inf":
        f = rng.normal(0, 1, n)
        f[rng.integers(0, n)] = np.inf * rng.choice([-1, 1])
    elif kind == "zeros":
        f = np.where(rng.random(n) < 0.5, 0.0, -0.0)
    else:
        f = rng.normal(0, 10, n)
    return [Agent(solution=rng.uniform(-5, 5, d), target=Target([v], None), tag=i) for i, v in enumerate(f)]


def snap(pop):
    return [(id(a), a.solution.copy(), a.target.fitness, id(a.target), a.target.objectives.copy(), getattr(a, "tag", None)) for a in pop]


def same_snap(x, y):
    return len(x) == len(y) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2] == b[2] and a[3] == b[3] and np.array_equal(a[4], b[4]) for a, b in zip(x, y))


class C20(core.Check):
    id = "C20"
    technique = "reference-model monitor of every shared operator call (deterministic ones exactly, sampling ones by range, coverage and order of frequencies)"
    rule = ("case = batch of populations (ties, equal, negative, huge, tiny differences, infinite, single agent, presorted) x direction; each shared operator is called on them and its result "
            "compared with a definition written independently; distinct by population kind, size and direction")
    assumptions = ("ties may be broken either way", "statistical decisions at significance 1e-10", "the roulette may give the very worst agent no chance")
    n = {"quick": 1500, "thorough": 30000}
    floors = {"deterministic_calls": 60000, "sampled": 500000, "distributions": 1400, "levy_steps": 2000, "opposition_points": 50000}

    def cases(self, seed, tier):
        return [{"seed": int(gen.rng_for(seed, "C20", i).integers(0, 2 ** 31)), "i": i} for i in range(self.n[tier])]

    def setup(self):
        self.models = {}

    def model(self, mm, mode="single"):
        if not hasattr(self, "models"):
            self.models = {}
        if (mm, mode) not in self.models:
            c = {"algo": "OriginalPSO", "pop_size": 10, "epoch": 1, "params": {}, "space": [{"kind": "float", "lb": [-5.0] * 3, "ub": [5.0] * 3}], "obj": "sphere", "minmax": mm, "seed": 3, "mode": mode}
            tr = E.run_case(c)
            if not tr.finished:
                raise RuntimeError(f"the carrier run failed: {tr.error}")
            self.models[mm, mode] = (tr.model, tr.obj)
        return self.models[mm, mode][0]

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        try:
            with np.errstate(all="ignore"):
                for _ in range(12):
                    self.det(rng, r)
                    if r.viol:
                        return r
                self.sampling(rng, r)
                if case["i"] % 3 == 0:
                    self.selection(rng, r)
                if case["i"] % 5 == 0:
                    self.ms(rng, r)
                if case["i"] % 5 == 1:
                    self.levy(rng, r)
                if case["i"] % 5 == 2:
                    self.opposition(rng, r)
        except Exception as e:
            import traceback
            r.v(f"crash:{type(e).__name__}", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
        r.sample("12 populations through every deterministic operator, index sampling and selection distributions")
        return r

    def det(self, rng, r):
        kind = str(rng.choice(["plain", "ties", "equal", "negative", "huge", "tiny", "ints", "sorted", "inf", "zeros"]))
        n = int(rng.choice([1, 2, 3, 5, 8, 20, 33]))
        mm = str(rng.choice(["min", "max"]))
        pop = make_pop(rng, n, int(rng.integers(1, 4)), kind)
        before = snap(pop)
        fits = [a.target.fitness for a in pop]
        best = min(fits) if mm == "min" else max(fits)
        worst = max(fits) if mm == "min" else min(fits)
        goodfirst = sorted(fits, reverse=(mm == "max"))
        m = self.model(mm)
        r.sig(kind, n, mm)
        O = Optimizer if rng.random() < 0.5 else m

        def bad(name, msg):
            r.v(f"{name}", f"{name} ({mm}, {kind}, fitness {[float(f) for f in fits][:12]}): {msg}")

        def unchanged(name):
            r.n("deterministic_calls")
            if not same_snap(before, snap(pop)):
                bad(name, "the population given was modified")

        def is_copy(name, a, i=None):
            """a equals some agent of the population but is none of them."""
            if any(a is b for b in pop) or any(a.solution is b.solution or a.target is b.target for b in pop):
                bad(name, "the returned agent shares its data with the population")
            elif not any(np.array_equal(a.solution, b.solution) and a.target.fitness == b.target.fitness for b in pop):
                bad(name, "the returned agent is none of the population")

        out, idx = O.get_sorted_population(pop, mm)
        unchanged("get_sorted_population")
        if [a.target.fitness for a in out] != goodfirst or sorted(a.tag for a in out) != list(range(n)) or [int(i) for i in idx] != [a.tag for a in out]:
            bad("get_sorted_population", f"returned fitness {[float(a.target.fitness) for a in out]} and indices {idx}")
        for nm, want in (("get_best_agent", best), ("get_worst_agent", worst)):
            a, i = getattr(O, nm)(pop, mm)
            unchanged(nm)
            if a.target.fitness != want or fits[i] != want or not np.array_equal(a.solution, pop[i].solution):
                bad(nm, f"returned fitness {a.target.fitness!r} with index {i}, should be {want!r}")
            is_copy(nm, a)
        nb, nw = (None if rng.random() < 0.15 else int(rng.integers(0, n + 3)) for _ in range(2))
        for ri in (False, True):
            s, b, w = O.get_special_agents(pop, nb, nw, mm, ri)
            unchanged("get_special_agents")
            if [a.target.fitness for a in s] != goodfirst:
                bad("get_special_agents", "the sorted population is not sorted")
            for got, k, order in ((b, nb, goodfirst), (w, nw, goodfirst[::-1])):
                if k is None:
                    if got is not None:
                        bad("get_special_agents", f"{got!r} although none were asked for")
                    continue
                v = [fits[i] for i in got] if ri else [a.target.fitness for a in got]
                if v != order[:k] or (ri and len(set(got)) != len(got)):
                    bad("get_special_agents", f"n_best={nb} n_worst={nw} return_index={ri}: {v} instead of {order[:k]}")
                if not ri:
                    for a in got:
                        is_copy("get_special_agents", a)
        t, b, w = O.get_special_fitness(pop, mm)
        unchanged("get_special_fitness")
        if b != best or w != worst or not (np.isclose(float(t), float(np.sum(np.array(fits, float))), rtol=1e-9, atol=1e-9 * float(np.sum(np.abs(np.array(fits, float))))) or not np.isfinite(t)):
            bad("get_special_fitness", f"{(t, b, w)!r}")
        k = int(rng.integers(1, n + 3))
        out = O.get_sorted_and_trimmed_population(pop, k, mm)
        unchanged("get_sorted_and_trimmed_population")
        if [a.target.fitness for a in out] != goodfirst[:k] or len({a.tag for a in out}) != len(out):
            bad("get_sorted_and_trimmed_population", f"the best {k} are {[float(a.target.fitness) for a in out]}")
        other = make_pop(rng, n, 2, str(rng.choice(["plain", "ties", kind])))
        if rng.random() < 0.3:
            for a, b in zip(other, pop):
                if rng.random() < 0.5:
                    a.target = Target([b.target.fitness], None)
        ob = snap(other)
        out = O.greedy_selection_population(pop, other, mm)
        unchanged("greedy_selection_population")
        if not same_snap(ob, snap(other)):
            bad("greedy_selection_population", "the new population given was modified")
        if len(out) != n:
            bad("greedy_selection_population", f"{len(out)} agents from two populations of {n}")
        for i, a in enumerate(out):
            x, y = pop[i].target.fitness, other[i].target.fitness
            w = (min if mm == "min" else max)(x, y)
            if a.target.fitness != w or not any(np.array_equal(a.solution, q.solution) for q in (pop[i], other[i]) if q.target.fitness == w):
                bad("greedy_selection_population", f"agent {i}: {a.target.fitness!r} from old {x!r} and new {y!r}")
        if n > 1:
            try:
                O.greedy_selection_population(pop, other[:-1], mm)
                bad("greedy_selection_population", "two populations of different lengths are accepted")
            except ValueError:
                pass
        for _ in range(4):
            a, b = pop[int(rng.integers(0, n))], other[int(rng.integers(0, n))]
            x, y = a.target.fitness, b.target.fitness
            better = x < y if mm == "min" else x > y
            wb, ww = ((min(x, y), max(x, y)) if mm == "min" else (max(x, y), min(x, y)))
            r.n("deterministic_calls", 6)
            if bool(O.compare_target(a.target, b.target, mm)) != better:
                bad("compare_target", f"{x!r} better than {y!r}: {not better}")
            if bool(O.compare_fitness(x, y, mm)) != better:
                bad("compare_fitness", f"{x!r} better than {y!r}: {not better}")
            if bool(a.is_better_than(b, mm)) != better:
                bad("is_better_than", f"{x!r} better than {y!r}: {not better}")
            if a.get_better_solution(b, mm).target.fitness != wb:
                bad("get_better_solution", f"from {x!r} and {y!r}: {a.get_better_solution(b, mm).target.fitness!r}")
            for rev in (False, True):
                g = O.get_better_agent(a, b, mm, rev)
                if g.target.fitness != (ww if rev else wb):
                    bad("get_better_agent", f"from {x!r} and {y!r}, reverse={rev}: {g.target.fitness!r}")
                if g is a or g is b or g.solution is a.solution or g.solution is b.solution or g.target is a.target or g.target is b.target:
                    bad("get_better_agent", "the returned agent shares its data with an argument")
        dup = O.duplicate_pop(pop)
        unchanged("duplicate_pop")
        if len(dup) != n or not all(x is not y and x.solution is not y.solution and x.target is not y.target and np.array_equal(x.solution, y.solution) and x.target.fitness == y.target.fitness for x, y in zip(pop, dup)):
            bad("duplicate_pop", "the duplicate is not an independent copy of the population")
        g, k = int(rng.integers(1, 6)), int(rng.integers(1, 8))
        big = make_pop(rng, g * k + int(rng.integers(0, 3)), 2, "plain")
        gr = m.generate_group_population(big, g, k)
        r.n("deterministic_calls")
        if [[a.tag for a in q] for q in gr] != [list(range(i * k, (i + 1) * k)) for i in range(g)]:
            bad("generate_group_population", f"{g} groups of {k} from {len(big)} agents: {[[a.tag for a in q] for q in gr]}")
        elif any(a is big[a.tag] or a.solution is big[a.tag].solution for q in gr for a in q):
            bad("generate_group_population", "the groups share agents with the population")
        a, b = rng.normal(0, 5, 3), rng.normal(0, 5, 3)
        c1, c2 = m.crossover_arithmetic(a, b)
        r.n("deterministic_calls")
        lo, hi = np.minimum(a, b) - 1e-9, np.maximum(a, b) + 1e-9
        if not (np.allclose(c1 + c2, a + b) and np.all((c1 >= lo) & (c1 <= hi)) and np.all((c2 >= lo) & (c2 <= hi))):
            bad("crossover_arithmetic", f"{a} x {b} -> {c1}, {c2}")

    def sampling(self, rng, r):
        O = Optimizer
        for which in ("one", "list"):
            n = int(rng.choice([2, 3, 5, 9, 20]))
            replace = bool(rng.random() < 0.3)
            if which == "one":
                ex = [int(rng.integers(0, n))]
                arg = ex[0]
            else:
                ex = sorted({int(v) for v in rng.integers(0, n, int(rng.integers(0, n)))})[:n - 1]
                arg = ex if rng.random() < 0.5 or not ex else np.array(ex)
            cand = [i for i in range(n) if i not in ex]
            k = int(rng.integers(1, len(cand) + 1)) if not replace else int(rng.integers(1, 2 * n))
            f = O.sample_indexes_exclude_one if which == "one" else O.sample_indexes_exclude_list
            nm = f.__name__
            g = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
            argc = np.array(arg).copy()
            cnt = np.zeros(n, int)
            reps = 400
            for _ in range(reps):
                s = f(g, n, arg, k, replace)
                if k == 1 and not np.isscalar(s):
                    r.v(nm, f"one sample is returned as {s!r}")
                    return
                v = np.atleast_1d(np.asarray(s))
                if len(v) != k or np.any(v < 0) or np.any(v >= n) or any(int(x) in ex for x in v) or (not replace and len(set(v.tolist())) != k):
                    r.v(nm, f"{k} of {n} without {ex}, replace={replace}: {v.tolist()}")
                    return
                np.add.at(cnt, v.astype(int), 1)
            r.n("sampled", reps * k)
            if not np.array_equal(argc, np.array(arg)):
                r.v(nm, "the exclusions given were modified")
            r.n("distributions")
            p = stats.chisquare(cnt[cand]).pvalue if len(cand) > 1 and (replace or k < len(cand)) else 1.0
            if p < P_MIN or np.any(cnt[cand] == 0):
                r.v(nm, f"{k} of {n} without {ex}, replace={replace}: frequencies {cnt.tolist()} in {reps} calls (p={p:.1e})")
                return

    def ordered(self, cnt, fits, mm, N, nm, r, reverse=False, slack=7.0):
        order = sorted(range(len(fits)), key=lambda i: fits[i], reverse=(mm == "max"))
        if reverse:
            order = order[::-1]
        for a in range(len(order)):
            for b in range(a + 1, len(order)):
                i, j = order[a], order[b]
                if fits[i] != fits[j] and cnt[j] - cnt[i] > slack * np.sqrt(cnt[i] + cnt[j] + 1):
                    r.v(nm, f"{mm}: the {'worse' if reverse else 'better'} of fitness {fits[i]!r} and {fits[j]!r} was selected {cnt[i]} times, the other {cnt[j]} times, in {N} calls; "
                            f"fitness {[float(f) for f in fits]}")
                    return

    def selection(self, rng, r):
        mm = str(rng.choice(["min", "max"]))
        m = self.model(mm)
        m.generator = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
        n = int(rng.choice([1, 2, 3, 6, 10]))
        kind = str(rng.choice(["plain", "ties", "equal", "negative", "huge", "ints", "sorted", "tiny", "positive", "zeros"]))
        pop = make_pop(rng, n, 2, kind)
        if kind == "positive":
            pop = [Agent(solution=np.zeros(2), target=Target([float(v)], None), tag=i) for i, v in enumerate(rng.uniform(0, 10, n) * (rng.random(n) < 0.8))]
        fits = [a.target.fitness for a in pop]
        N = 1500
        form = [list, tuple, np.array, lambda f: np.array(f).reshape(-1, 1)][int(rng.integers(0, 4))](fits)
        fc = np.array(form).copy()
        cnt = np.zeros(n, int)
        for _ in range(N):
            i = m.get_index_roulette_wheel_selection(form)
            if not (isinstance(i, (int, np.integer)) and 0 <= i < n):
                r.v("roulette", f"index {i!r} for {n} agents")
                return
            cnt[i] += 1
        r.n("sampled", N)
        r.n("distributions")
        if not np.array_equal(fc, np.array(form)):
            r.v("roulette", "the fitness list given was modified")
        self.ordered(cnt, fits, mm, N, "roulette", r)
        b = (min if mm == "min" else max)(fits)
        w = (max if mm == "min" else min)(fits)
        if n > 1 and b != w and cnt[fits.index(b)] == 0:
            r.v("roulette", f"{mm}: the best of {fits} is never selected in {N} calls")
        if n > 1 and b == w:
            if stats.chisquare(cnt).pvalue < P_MIN:
                r.v("roulette", f"equal agents are selected {cnt.tolist()} times")
        spread = abs(b - w)
        for i, f in enumerate(fits):
            if f != w and abs(f - w) > 0.2 * spread and cnt[i] == 0:
                r.v("roulette", f"{mm}: fitness {f!r} among {fits} is never selected in {N} calls")
        if n < 2:
            return
        # tournaments
        for rev in (False, True):
            out = int(rng.integers(1, min(4, n) + 1))
            if rng.random() < 0.4:
                k = n                                   # everyone takes part: the result is determined
            elif rng.random() < 0.5:
                k = int(rng.integers(out, n + 1))
            else:
                k = float(np.round(rng.uniform(0.05, 0.95), 2))
            cnt = np.zeros(n, int)
            kk = max(out, int(k * n)) if isinstance(k, float) else k
            before = snap(pop)
            for _ in range(400):
                s = m.get_index_kway_tournament_selection(pop, k, out, rev)
                v = [int(x) for x in s]
                if len(v) != min(out, kk) or len(set(v)) != len(v) or min(v) < 0 or max(v) >= n:
                    r.v("tournament", f"k_way={k} output={out} of {n} agents: {v}")
                    return
                if kk == n:
                    want = sorted(fits, reverse=(mm == "max"))
                    want = sorted(want[-out:]) if rev else want[:out]
                    got = [fits[i] for i in v]
                    if (sorted(got) if rev else got) != want:
                        r.v("tournament", f"{mm}, reverse={rev}: all {n} agents take part, fitness {got} won instead of {want} among {fits}")
                        return
                np.add.at(cnt, v, 1)
            r.n("sampled", 400)
            r.n("distributions")
            if not same_snap(before, snap(pop)):
                r.v("tournament", "the population given was modified")
            self.ordered(cnt, fits, mm, 400, "tournament", r, reverse=rev)

    def ms(self, rng, r):
        mm = str(rng.choice(["min", "max"]))
        mode = str(rng.choice(["single", "swarm"]))
        m = self.model(mm, mode)
        obj = self.models[mm, mode][1]
        pop = m.generate_population(2 * int(rng.integers(1, 8)))
        fits = [a.target.fitness for a in pop]
        before = [(a.solution.copy(), a.target.fitness) for a in pop]
        g = m.g_best
        out = m.improved_ms(pop, g)
        r.n("deterministic_calls")
        if len(out) != len(pop):
            r.v("improved_ms", f"{len(out)} agents from {len(pop)}")
        if any(not np.array_equal(a.solution, b[0]) or a.target.fitness != b[1] for a, b in zip(pop, before)):
            r.v("improved_ms", "the population given was modified")
        for a in out:
            f = float(np.sum(np.atleast_1d(obj.pure(a.solution))))
            if f != a.target.fitness:
                r.v("improved_ms", f"{mm}, {mode} mode: an agent with fitness {a.target.fitness!r} has a solution worth {f!r}")
                return
        o = [a.target.fitness for a in out]
        half = sorted(fits, reverse=(mm == "max"))[:len(fits) // 2]
        got = sorted(o, reverse=(mm == "max"))
        for a, b in zip(got, half):
            if (a > b) if mm == "min" else (a < b):
                r.v("improved_ms", f"{mm}: the best half {half} became {got}")
                return

    def levy(self, rng, r):
        """Mantegna's algorithm, written independently: u / |v|^(1/beta), u ~ N(0, sigma), v ~ N(0, 1)."""
        m = self.model("min")
        m.generator = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
        beta = float(rng.choice([0.3, 0.5, 0.75, 1.0, 1.25, 1.5, 1.8, 1.95]))
        mul = float(rng.choice([1.0, 0.001, 0.01, 2.5, 10.0]))
        case = int(rng.choice([-1, 0, 1]))
        for size in (None, 1, 4, (4,), (3, 2), [2, 5], (1,), (2, 1, 3)):
            kw = {} if size is None and rng.random() < 0.5 else {"size": size}
            s = m.get_levy_flight_step(beta=beta, multiplier=mul, case=case, **kw)
            want = () if size is None or size == 1 else np.empty(size).shape
            r.n("levy_steps")
            if np.shape(s) != want or not np.all(np.isfinite(s)):
                r.v("levy", f"beta={beta} case={case} size={size!r}: a step of shape {np.shape(s)}, {s!r}")
                return
        sig = (gamma(1 + beta) * np.sin(np.pi * beta / 2) / (gamma((1 + beta) / 2) * beta * 2 ** ((beta - 1) / 2))) ** (1 / beta)
        ref = mul * rng.normal(0, sig, 30000) / np.abs(rng.normal(0, 1, 30000)) ** (1 / beta)
        if case == -1:
            got = m.get_levy_flight_step(beta=beta, multiplier=mul, size=(60, 50), case=case)
            got = np.ravel(got)
        else:
            ref = ref * (rng.random(30000) if case == 0 else rng.normal(0, 1, 30000))
            got = np.array([m.get_levy_flight_step(beta=beta, multiplier=mul, case=case) for _ in range(2000)])
        r.n("sampled", len(got))
        r.n("distributions")
        q = stats.ks_2samp(got, ref).pvalue
        if q < P_MIN:
            r.v("levy", f"beta={beta} multiplier={mul} case={case}: median size {np.median(np.abs(got)):.4g}, the definition has {np.median(np.abs(ref)):.4g} (p={q:.1e})")
        for k in (1, 2, 3):
            if len(got) > 100 and abs(stats.spearmanr(got[:-k], got[k:]).statistic) > 9 / np.sqrt(len(got)):
                r.v("levy", f"beta={beta} case={case}: consecutive steps are correlated")

    def opposition(self, rng, r):
        if not hasattr(self, "skew"):
            c = {"algo": "OriginalPSO", "pop_size": 10, "epoch": 1, "params": {}, "obj": "sphere", "minmax": "min", "seed": 3, "mode": "single",
                 "space": [{"kind": "float", "lb": [-5.0, 0.0, 2.0, -90.0], "ub": [5.0, 7.0, 30.0, -10.0]}]}
            tr = E.run_case(c)
            if not tr.finished:
                raise RuntimeError(f"the carrier run failed: {tr.error}")
            self.skew = tr.model
        m = self.skew
        m.generator = np.random.default_rng(int(rng.integers(0, 2 ** 31)))
        lb, ub = np.array([-5.0, 0.0, 2.0, -90.0]), np.array([5.0, 7.0, 30.0, -10.0])
        mid, half = (lb + ub) / 2, (ub - lb) / 2
        us = []
        for k in range(300):
            inner = rng.random() < 0.7
            w = 0.3 if inner else 1.0
            g = Agent(solution=mid + half * rng.uniform(-w, w, 4), target=Target([1.0], None))
            a = Agent(solution=mid + half * rng.uniform(-w, w, 4), target=Target([2.0], None))
            before = snap([a, g])
            x = np.array(m.generate_opposition_solution(a, g), float)
            r.n("opposition_points")
            if not same_snap(before, snap([a, g])):
                r.v("opposition", "the agents given were modified")
            if x.shape != (4,) or not np.all(np.isfinite(x)) or np.any(x < lb) or np.any(x > ub):
                r.v("opposition", f"{x.tolist()} is outside the bounds")
                return
            if inner:
                u = (x - (lb + ub - g.solution)) / (g.solution - a.solution)
                ok = np.abs(g.solution - a.solution) > 1e-3
                if np.any(ok) and (np.ptp(u[ok]) > 1e-6 or u[ok][0] < -1e-9 or u[ok][0] > 1 + 1e-9):
                    r.v("opposition", f"agent {a.solution.tolist()}, best {g.solution.tolist()}: {x.tolist()} is not between the mirror image of the best and of the agent side")
                    return
                if np.any(ok):
                    us.append(u[ok][0])
        r.n("distributions")
        if len(us) > 50 and stats.kstest(us, "uniform").pvalue < P_MIN:
            r.v("opposition", f"the opposite points are not spread evenly: {np.round(np.percentile(us, [0, 25, 50, 75, 100]), 3)}")


CHECK = C20()
