import numpy as np
from scipy import stats
from mon import core, engine as E, gen, oracles as Q, varspec as V
from mealpy import Problem

P_MIN = 1e-10
TF = ("tfbin", "tfbool")


class C12(core.Check):
    id = "C12"
    technique = "statistical monitors (coverage, goodness of fit, independence at significance 1e-10) over recorded values and initial populations of the real code"
    rule = ("case = one variable (all ten types, exotic sizes) with thousands of generated values, one problem of several variables with joint samples under a fixed seed, or the first "
            "population of an optimizer in one mode; distinct by type, size and configuration")
    assumptions = ("statistical decision with a per-test significance of 1e-10", "a non-zero binary vector forced where all zeros are forbidden is not judged for uniformity, only for reachability",
                   "optimizers with a documented initialisation of their own (chaotic, opposition, ...) are judged for repeated agents and the domain, not for uniformity")
    n = {"quick": 900, "thorough": 8000}
    draws = {"quick": 3000, "thorough": 12000}
    per_algo = {"quick": 2, "thorough": 12}
    floors = {"values": 1000000, "fit_tests": 2000, "pairs_tested": 3000, "populations": 300, "agents": 5000}

    def cases(self, seed, tier):
        out = []
        for i, s in enumerate(V.EXOTIC):
            out.append({"kind": "var", "space": [dict(s, name="x")], "seed": 77 + i, "n": self.draws[tier]})
        for i in range(self.n[tier]):
            rng = gen.rng_for(seed, "C12", i)
            c = {"seed": int(rng.integers(0, 2 ** 31)), "n": self.draws[tier]}
            if i % 3 == 0:
                c.update(kind="var", space=V.random_space(rng, k=1), seeded=bool(rng.random() < 0.6))
            elif i % 3 == 1:
                k = int(rng.integers(2, 5))
                if rng.random() < 0.5:
                    one = V.random_space(rng, k=1)[0]
                    sp = [dict(one, name=f"v{j}") for j in range(k)]
                else:
                    sp = V.random_space(rng, k=k)
                c.update(kind="problem", space=sp, seeded=bool(rng.random() < 0.8), n=self.draws[tier] // 2)
            else:
                sp = V.random_space(rng, k=int(rng.integers(1, 4)))
                if i % 2:
                    sp = [gen.float_space(rng, 3)] + sp
                    sp[0]["name"] = "f"
                c.update(kind="base", space=sp, mode=["single", "swarm", "thread", "process"][i // 3 % 4], n=400)
            out.append(c)
        for algo in gen.ALGOS:
            for i in range(self.per_algo[tier]):
                rng = gen.rng_for(seed, "C12", algo, i)
                c = gen.base_case(rng, algo, flavour="float", params="random" if i % 2 else "default", obj="sphere", epoch=1, mode="swarm" if i % 2 else "single")
                c["space"] = [gen.float_space(rng, 3)]
                c["kind"] = "algo"
                out.append(c)
        return out

    def run(self, case):
        r = core.R()
        k = case["kind"]
        try:
            getattr(self, "run_" + k)(case, r)
        except Exception as e:
            import traceback
            r.v(f"crash:{type(e).__name__}", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
        return r

    # ---- goodness of fit of a sample of encoded values of one variable
    def fit(self, s, m, r, where):
        """m: rows = draws, columns = coordinates."""
        lo, hi = E.space_bounds([s])
        k = s["kind"]
        n = len(m)
        for j in range(m.shape[1]):
            x = m[:, j]
            if k == "float":
                if hi[j] == lo[j]:
                    continue
                p = stats.kstest((x - lo[j]) / (hi[j] - lo[j]), "uniform").pvalue
                what = "uniform over the range"
            else:
                c = int(round(hi[j] - lo[j])) if k not in TF else 2
                base = lo[j] + 0.5 if k == "int" else 0
                v = np.round(x - base).astype(int)
                if k == "tfbin" and not s.get("all_zeros", True):
                    if n > 500 and (v == 0).all() and m.shape[1] > 1 or (v == 1).all() and m.shape[1] > 1:
                        r.v(f"unreachable:{k}{where}", f"coordinate {j} takes the single value {v[0]} in {n} draws", spec=s)
                    continue
                if c == 1:
                    continue
                if n < 20 * c:         # too many cells for exact coverage: pool them
                    b = max(2, n // 200)
                    v, c0 = (v * b) // c, c
                    w = np.array([sum(1 for q in range(c0) if (q * b) // c0 == t) for t in range(b)], float) / c0 if c0 < 100000 else np.full(b, 1 / b)
                    c = b
                else:
                    w = np.full(c, 1 / c)
                cnt = np.bincount(np.clip(v, 0, c - 1), minlength=c)
                if (cnt == 0).any() and n * w.min() > 30:
                    r.v(f"unreachable:{k}{where}", f"coordinate {j}: value number {int(np.argmin(cnt))} of {c} was never produced in {n} draws", spec=s)
                    return
                p = stats.chisquare(cnt, n * w).pvalue
                what = f"equally likely over its {c} values: counts {cnt.tolist()[:12]}"
            r.n("fit_tests")
            if p < P_MIN:
                r.v(f"unfair:{k}{where}", f"coordinate {j} over {n} draws is not {what} (p={p:.1e}; min {x.min()}, max {x.max()})", spec=s)
                return

    def independent(self, a, b, what, r, key):
        n = len(a)
        if np.ptp(a) == 0 or np.ptp(b) == 0:
            return
        c = stats.spearmanr(a, b)[0]
        r.n("pairs_tested")
        if abs(c) > 6.7 / np.sqrt(n - 1):
            r.v(key, f"{what}: rank correlation {c:.3f} over {n} draws")

    def legal(self, s, raw, r):
        if s["kind"] == "string":
            raw = [str(x) for x in raw]     # numpy strings are strings
        v = {s["name"]: (raw if s["kind"] == "seq" or V.n_vars(s) > 1 else list(raw)[0])}
        if s["kind"] == "seq":
            raw = V.conv(s)(raw)
            v = {s["name"]: raw}
        m = Q.legal([s], v)
        if m is None and s["kind"] == "tfbin" and not s.get("all_zeros", True) and not np.any(raw):
            m = "the forbidden all-zero vector"
        if m:
            r.v(f"illegal:{s['kind']}", f"generated {raw!r}: {m}", spec=s)
        return m is None

    def run_var(self, case, r):
        s = case["space"][0]
        v = E.make_var(s)
        if case.get("seeded", True):
            v.seed = case["seed"]
        rows = []
        for _ in range(case["n"]):
            g = v.generate()
            if not self.legal(s, g, r):
                return
            rows.append(np.asarray(v.encode(g), float))
        m = np.array(rows)
        r.n("values", m.size)
        r.sig(s["kind"], V.n_vars(s), case.get("seeded", True))
        self.fit(s, m, r, "")
        if r.viol:
            return
        forced = s["kind"] == "perm" or (s["kind"] == "tfbin" and not s.get("all_zeros", True))   # coordinates of one value that constrain each other
        for j in range(m.shape[1]):
            self.independent(m[:-1, j], m[1:, j], f"successive draws of coordinate {j} of {s['kind']}", r, f"serial:{s['kind']}")
            if j and not forced:
                self.independent(m[:, j - 1], m[:, j], f"coordinates {j - 1} and {j} of one {s['kind']} variable", r, f"coordinates:{s['kind']}")
        if s["kind"] not in TF and V.n_vars(s) and not case.get("seeded", True):
            w = E.make_var(s)
            m2 = np.array([np.asarray(w.encode(w.generate()), float) for _ in range(60)])
            if m2.size >= 60 and np.ptp(m2) > 0 and np.array_equal(m[:60], m2):
                r.v(f"same-stream:{s['kind']}", "two unseeded variables of the same declaration produce the same values", spec=s)
        if s["kind"] not in TF:
            a, b, c = E.make_var(s), E.make_var(s), E.make_var(s)
            a.seed, b.seed, c.seed = 5, 5, 6
            ga, gb, gc = ([np.asarray(q.encode(q.generate()), float) for _ in range(40)] for q in (a, b, c))
            if not np.array_equal(ga, gb):
                r.v(f"seed:{s['kind']}", "the same seed gives different values", spec=s)
            if np.array_equal(ga, gc) and np.ptp(ga) > 0:
                r.v(f"seed:{s['kind']}", "different seeds give the same values", spec=s)
        r.sample(f"{len(m)} values of {s['kind']}: first encoded {m[0].tolist()}, mean {m.mean(0).tolist()}")

    def joint(self, sp, m, r, where):
        at, cols = 0, []
        for i, s in enumerate(sp):
            n = V.n_vars(s)
            self.fit(s, m[:, at:at + n], r, where)
            cols += [(i, j, at + j) for j in range(n)]
            at += n
        if r.viol:
            return
        for x in range(len(cols)):
            self.independent(m[:-1, cols[x][2]], m[1:, cols[x][2]], f"successive solutions, coordinate {x}", r, f"serial{where}")
            for y in range(x):
                if cols[x][0] != cols[y][0]:
                    sx, sy = sp[cols[x][0]], sp[cols[y][0]]
                    self.independent(m[:, cols[x][2]], m[:, cols[y][2]], f"variables {sx['name']} and {sy['name']}", r, f"dependent{where}:{'+'.join(sorted([sx['kind'], sy['kind']]))}")

    def run_problem(self, case, r):
        sp = case["space"]
        P = Problem(bounds=[E.make_var(s) for s in sp], minmax="min", obj_func=lambda x: 0.0, log_to=None)
        if case["seeded"]:
            P.set_seed(case["seed"])
        rows = []
        for i in range(case["n"]):
            if i % 2:
                g = P.generate_solution(encoded=False)
                if len(g) != len(sp) or not all(self.legal(s, v, r) for s, v in zip(sp, g)):
                    if not r.viol:
                        r.v("problem-generate", f"{len(g)} values for {len(sp)} variables")
                    return
                g = P.encode_solution(g)
            else:
                g = P.generate_solution(encoded=True)
            rows.append(np.asarray(g, float))
        m = np.array(rows)
        r.n("values", m.size)
        r.sig("problem", *[(s["kind"], V.n_vars(s)) for s in sp])
        self.joint(sp, m, r, ":problem")
        r.sample(f"{len(m)} joint solutions of {[s['kind'] for s in sp]}")

    def run_base(self, case, r):
        """generate_population of the optimizer base in every mode."""
        sp = case["space"]
        base = {"algo": "OriginalPSO" if case["seed"] % 2 else "OriginalWOA", "pop_size": 12, "epoch": 1, "params": {}, "space": sp, "obj": "sphere", "minmax": "min",
                "seed": case["seed"], "mode": case["mode"], "n_workers": 3}
        if case["seed"] % 2:
            base["algo"] = "BaseGA"
        tr = E.run_case(base, cpu_limit=30, keep_pops=False)
        if not tr.finished:
            r.skip = f"run ended with {type(tr.error).__name__}"
            return
        m0 = np.array([x.solution for x in tr.model.generate_population(case["n"] if case["mode"] != "process" else 200)], float)
        r.n("populations")
        r.n("agents", len(m0))
        r.n("values", m0.size)
        r.sig("base", case["mode"], *[(s["kind"], V.n_vars(s)) for s in sp])
        self.joint(sp, m0, r, f":population")
        self.repeats(sp, m0, r, f"generate_population in {case['mode']} mode", f"repeated:{case['mode']}")
        r.sample(f"{len(m0)} agents generated in {case['mode']} mode")

    def repeats(self, sp, m, r, what, key):
        at = 0
        lo, hi = E.space_bounds(sp)
        m = m[np.all((m > lo) & (m < hi), axis=1)] if key.split(":")[1] in E.ALL else m     # agents clipped to the border of the space may coincide
        if len(m) < 2:
            return
        for s in sp:
            n = V.n_vars(s)
            if s["kind"] == "float" and np.ptp(m[:, at:at + n], axis=0).min() > 0 and len(np.unique(m[:, at:at + n], axis=0)) < len(m):
                r.v(key, f"{what}: only {len(np.unique(m[:, at:at + n], axis=0))} distinct values of a continuous variable among {len(m)} agents")
            at += n

    def run_algo(self, case, r):
        tr = E.run_case(case, cpu_limit=20, keep_pops=False)
        if tr.model is None or tr.init_pop is None:
            r.skip = "no initial population"
            return
        X = [np.asarray(e[0], float) for e in tr.obj.evals[:tr.init_evals]]
        if len(X) < 2:
            r.skip = "a single initial agent"
            return
        m = np.array(X)
        r.n("populations")
        r.n("agents", len(m))
        r.n("values", m.size)
        r.sig(case["algo"], len(m))
        a = case["algo"]
        lo, hi = E.space_bounds(case["space"])
        self.repeats(case["space"], m, r, f"first evaluated solutions of {a}", f"repeated:{a}")
        u = (m - lo) / (hi - lo)
        if len(m) >= 10:
            for j in range(m.shape[1]):
                for q in range(j):
                    if np.ptp(u[:, j]) > 0 and np.allclose(u[:, j], u[:, q], atol=1e-12):
                        r.v(f"coordinates-equal:{a}", f"coordinates {q} and {j} are equal in all {len(m)} initial agents")
        r.sample(f"{a}: {len(m)} first solutions, first {m[0].tolist()}")


CHECK = C12()
