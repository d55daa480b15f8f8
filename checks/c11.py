import numpy as np
from mon import core, engine as E, gen, oracles as Q, varspec as V
from mealpy import Problem

TF = ("tfbin", "tfbool")


class C11(core.Check):
    id = "C11"
    technique = "generated hostile vectors corrected by real variables, problems and used optimizers, judged by an independent model of the encoded boxes"
    rule = ("case = mix of variables (all ten types, exotic sizes) or optimizer with random hyper-parameters after a short run; each corrects hostile vectors (outside, boundary, "
            "next-to-boundary, infinite) and encoded legal solutions; distinct by types, sizes and optimizer")
    assumptions = ("transfer-function variables are random: only legality, input and slice are judged", "an optimizer may move a legal coordinate by rounding (relative 1e-9)",
                   "an optimizer may replace an illegal coordinate by any legal value")
    n = {"quick": 8000, "thorough": 200000}
    per_algo = {"quick": 4, "thorough": 60}
    floors = {"vectors_corrected": 100000, "legal_kept": 50000, "optimizer_vectors": 15000, "slices": 50000}

    def cases(self, seed, tier):
        out = []
        for i in range(self.n[tier]):
            rng = gen.rng_for(seed, "C11", i)
            out.append({"space": V.random_space(rng), "seed": int(rng.integers(0, 2 ** 31)), "reps": 12})
        for i, s in enumerate(V.EXOTIC):
            out.append({"space": [dict(s, name="x")], "seed": 1000 + i, "reps": 40})
        for algo in gen.ALGOS:
            for i in range(self.per_algo[tier]):
                rng = gen.rng_for(seed, "C11", algo, i)
                c = gen.base_case(rng, algo, flavour=["mixed_det", "float", "mixed", "int", "perm"][i % 5], params="random" if i % 2 == 0 else "default", obj="sphere", epoch=3,
                                  mode=str(rng.choice(["single", "swarm"])))
                c["space"] = V.random_space(rng, k=int(rng.integers(1, 4))) if i % 2 else c["space"]
                c["reps"] = 14
                out.append(c)
        return out

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        if "algo" in case:
            return self.optimizer(case, rng, r)
        sp = case["space"]
        try:
            vars_ = [E.make_var(s) for s in sp]
            P = Problem(bounds=vars_, minmax="min", obj_func=lambda x: 0.0, log_to=None)
        except Exception as e:
            r.v(f"constructor:{'+'.join(s['kind'] for s in sp)}", f"a legal declaration was refused: {type(e).__name__}: {e}")
            return r
        r.sig(*[(s["kind"], V.n_vars(s)) for s in sp])
        try:
            for _ in range(case["reps"]):
                self.one(sp, vars_, P, rng, r)
                if r.viol:
                    return r
        except Exception as e:
            import traceback
            r.v(f"crash:{type(e).__name__}", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}")
        r.sample(f"{case['reps']} hostile vectors and as many legal ones corrected through {[s['kind'] for s in sp]}")
        return r

    def judge(self, s, x, got, exact=True):
        """x corrected to got by one variable; None or a message."""
        lo, hi = E.space_bounds([s])
        m = Q.in_domain(got, lo, hi, 1e-9 * np.maximum(1, np.abs(hi - lo)))
        if m:
            return m
        k = s["kind"]
        got = np.asarray(got, float)
        if k == "float" and not np.array_equal(got, np.minimum(np.maximum(x, lo), hi)):
            return f"the nearest legal vector is {np.minimum(np.maximum(x, lo), hi).tolist()}"
        if k == "int":
            if np.any(np.abs(got - np.minimum(np.maximum(x, lo), hi)) > 1e-3):
                return "not the nearest point of the encoded box"
        if k in ("string", "cat", "seq", *TF) and not np.array_equal(got, np.floor(got)):
            return "discrete coordinates are not whole numbers"
        if k in ("string", "cat", "seq"):
            want = np.minimum(np.floor(np.minimum(np.maximum(x, lo), hi)), hi - 1)
            if np.any(np.abs(got - want) > 0) and not np.any(np.abs(x - np.round(x)) < 1e-3):
                return f"the cells of this vector are {want.tolist()}"
        if k == "perm":
            if sorted(got.tolist()) != list(range(len(got))):
                return "not a permutation of the ranks"
            if any(x[i] < x[j] and got[i] > got[j] for i in range(len(x)) for j in range(len(x))):
                return "the order of the coordinates is not kept"
        if k in ("bin", "bool") and np.any(np.abs(got - np.minimum(np.maximum(x, lo), hi)) > 1e-3):
            return "not the nearest point of the encoded box"
        if k == "tfbin" and not s.get("all_zeros", True) and not got.any():
            return "the forbidden all-zero vector"
        return None

    def one(self, sp, vars_, P, rng, r):
        hos, outs = [], []
        for s, v in zip(sp, vars_):
            h = V.hostile(rng, s)
            hc = h.copy()
            h.setflags(write=bool(rng.random() < 0.5))
            try:
                c = v.correct(h)
            except ValueError as e:
                if "read-only" in str(e):
                    r.v(f"input-modified:{s['kind']}", f"correction writes into its input: {e}")
                    return
                raise
            r.n("vectors_corrected")
            m = self.judge(s, hc, c)
            if m is None and not np.array_equal(h, hc):
                m = "the input vector was changed"
            c = np.asarray(c, float)
            if m is None and s["kind"] not in TF:
                cc = np.asarray(v.correct(c.copy()), float)
                if not np.array_equal(cc, c):
                    m = f"correcting again gives {cc.tolist()}"
                if not np.array_equal(np.asarray(v.correct(hc.copy()), float), c):
                    m = "correcting the same vector twice gives two results"
            if m:
                r.v(f"correct:{s['kind']}", f"{hc.tolist()} is corrected to {c.tolist()}: {m}", spec=s)
                return
            if s["kind"] not in TF:
                e = np.asarray(v.encode(V.as_given(rng, s, V.legal_value(rng, s))), float)
                ec = np.asarray(v.correct(e.copy()), float)
                r.n("legal_kept")
                if not np.array_equal(e, ec):
                    r.v(f"legal-changed:{s['kind']}", f"the encoded legal solution {e.tolist()} is corrected to {ec.tolist()}", spec=s)
                    return
            hos.append(hc)
            outs.append(c)
        x = np.concatenate(hos)
        form = rng.integers(0, 3)
        given = [x.copy(), list(x), tuple(x)][form]
        y = P.correct_solution(given)
        r.n("vectors_corrected")
        if not isinstance(y, np.ndarray) or y.shape != x.shape:
            r.v("problem-length", f"{x.tolist()} is corrected to {y!r}")
            return
        if not np.array_equal(np.asarray(given), x):
            r.v("problem-input", "the input vector was changed")
        at = 0
        for s, o, h in zip(sp, outs, hos):
            part = y[at:at + len(o)]
            at += len(o)
            r.n("slices")
            if s["kind"] in TF:
                m = self.judge(s, h, part)
                if m:
                    r.v(f"problem-slice:{s['kind']}", f"{h.tolist()} -> {part.tolist()}: {m}", space=sp)
            elif not np.array_equal(part, o):
                r.v("problem-slice", f"the slice {h.tolist()} of {s['name']} is corrected to {part.tolist()} inside the problem but to {o.tolist()} alone", space=sp)
                return
        # another variable's slice changes: this one must not
        j = int(rng.integers(0, len(sp)))
        x2 = np.concatenate([V.hostile(rng, s) if i == j else h for i, (s, h) in enumerate(zip(sp, hos))])
        y2 = P.correct_solution(x2)
        at = 0
        for i, (s, o) in enumerate(zip(sp, outs)):
            if i != j and s["kind"] not in TF and not np.array_equal(y2[at:at + len(o)], y[at:at + len(o)]):
                r.v("problem-cross", f"changing {sp[j]['name']} changed the corrected slice of {s['name']}", space=sp)
                return
            at += len(o)

    def optimizer(self, case, rng, r):
        tr = E.run_case(case, cpu_limit=20, keep_pops=False)
        a = case["algo"]
        if tr.model is None or tr.error is not None or tr.model.problem is None:
            r.skip = "constructor rejected the configuration" if tr.model is None else f"run ended with {type(tr.error).__name__}"
            r.n("no_model")
            return r
        m, P, sp = tr.model, tr.model.problem, case["space"]
        lo, hi, tol = Q.box(sp)
        r.sig(a, *[(s["kind"], V.n_vars(s)) for s in sp])
        det = np.concatenate([np.full(V.n_vars(s), s["kind"] not in TF) for s in sp])
        ok = np.ones(len(lo), bool)
        try:
            with np.errstate(all="ignore"):
                for k in range(case["reps"]):
                    x = np.concatenate([V.hostile(rng, s) for s in sp])
                    if k % 2:
                        e = P.encode_solution([V.legal_value(rng, s) for s in sp])
                        x = np.asarray(e, float)
                    xc = x.copy()
                    y = m.correct_solution(x)
                    r.n("optimizer_vectors")
                    if not np.array_equal(x, xc):
                        r.v(f"input-modified:{a}", f"correct_solution changed its input {xc.tolist()} to {x.tolist()}", space=sp)
                        return r
                    w = Q.in_domain(y, lo, hi, tol)
                    if w:
                        r.v(f"optimizer:{a}", f"{xc.tolist()} is corrected to {np.asarray(y).tolist()}: {w}", space=sp)
                        return r
                    d = Q.legal(sp, P.decode_solution(np.asarray(y)))
                    if d:
                        r.v(f"optimizer-illegal:{a}", f"{xc.tolist()} is corrected to {np.asarray(y).tolist()}: {d}", space=sp)
                        return r
                    if k % 2 and not np.allclose(np.asarray(y)[det], xc[det], rtol=1e-9, atol=1e-12):
                        r.v(f"legal-changed:{a}", f"the encoded legal solution {xc.tolist()} is corrected to {np.asarray(y).tolist()}", space=sp)
                        return r
                    r.n("legal_kept", k % 2)
                    y2 = m.correct_solution(np.array(y, float))
                    if not np.allclose(np.asarray(y2, float)[det], np.asarray(y, float)[det], rtol=1e-9, atol=1e-12):
                        r.v(f"not-idempotent:{a}", f"{np.asarray(y).tolist()} is corrected again to {np.asarray(y2).tolist()}", space=sp)
                        return r
        except Exception as e:
            import traceback
            r.v(f"crash:{a}", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}", space=sp)
        r.sample(f"{case['reps']} vectors corrected by {a} after {len(tr.obj.evals)} evaluations")
        return r


CHECK = C11()
