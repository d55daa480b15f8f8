import numpy as np
from mon import core, engine as E, gen, oracles as Q, varspec as V
from mealpy import Problem


class C10(core.Check):
    id = "C10"
    technique = "generated encode/decode traffic on real variables and problems, judged by an independent model of the variable types"
    rule = ("case = mix of variables (all ten types, label sets of mixed types, exotic sizes); in each, legal values are encoded and decoded and hostile real vectors are decoded, "
            "through single variables and through the problem; distinct by types, sizes and label kinds")
    assumptions = ("variables of a problem have distinct names", "the variables with a transfer function decode a vector that is not yet 0/1 at random; only legality is judged there",
                   "integer coordinates exactly halfway may round either way; coordinates within 1e-3 of the upper end of a cell are not judged for their cell")
    n = {"quick": 12000, "thorough": 300000}
    floors = {"roundtrips": 20000, "vectors_decoded": 20000, "problem_decodes": 10000, "label_tables": 500}

    def cases(self, seed, tier):
        out = []
        for i in range(self.n[tier]):
            rng = gen.rng_for(seed, "C10", i)
            out.append({"space": V.random_space(rng), "seed": int(rng.integers(0, 2 ** 31)), "reps": 12})
        for i, s in enumerate(V.EXOTIC):
            out.append({"space": [dict(s, name="x")], "seed": 1000 + i, "reps": 40})
        return out

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        sp = case["space"]
        try:
            vars_ = [E.make_var(s) for s in sp]
            P = Problem(bounds=vars_ if len(vars_) > 1 or rng.random() < 0.5 else vars_[0], minmax="min", obj_func=lambda x: 0.0, log_to=None)
        except Exception as e:
            r.v(f"constructor:{'+'.join(s['kind'] for s in sp)}", f"a legal declaration was refused: {type(e).__name__}: {e}")
            return r
        r.sig(*[(s["kind"], V.n_vars(s)) for s in sp])
        try:
            for s, v in zip(sp, vars_):
                self.table(s, v, r)
            for _ in range(case["reps"]):
                self.one(sp, vars_, P, rng, r)
                if r.viol:
                    return r
        except Exception as e:
            import traceback
            r.v(f"crash:{type(e).__name__}", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}")
        r.sample(f"{case['reps']} round trips and hostile vectors decoded through {len(sp)} variables: {[s['kind'] for s in sp]}")
        return r

    def table(self, s, v, r):
        """Labels <-> cells must be one to one."""
        k = s["kind"]
        if k in ("string", "cat"):
            for j, st in enumerate(V.sets_of(s)):
                codes = []
                for lab in st:
                    val = [x[0] for x in V.sets_of(s)]
                    val[j] = lab
                    codes.append(float(np.asarray(v.encode(val), float)[j]))
                if sorted(codes) != [float(i) for i in range(len(st))]:
                    r.v(f"table:{k}", f"labels {st!r} are encoded as {codes}, not one to one onto 0..{len(st) - 1}")
            r.n("label_tables")
        elif k == "seq":
            codes = [float(np.asarray(v.encode(V.conv(s)(x)), float)[0]) for x in s["sets"]]
            if len({repr(V.conv(s)(x)) for x in s["sets"]}) == len(s["sets"]) and sorted(codes) != [float(i) for i in range(len(codes))]:
                r.v(f"table:{k}", f"sequences {s['sets']!r} are encoded as {codes}")
            r.n("label_tables")

    def cell(self, s, v, x, got):
        """Independent statement of what decoding x must give; None or a message."""
        k = s["kind"]
        lo, hi = E.space_bounds([s])
        if k == "float":
            want = np.minimum(np.maximum(x, np.array(s["lb"], float)), np.array(s["ub"], float))
            if not np.array_equal(np.asarray(got, float), want):
                return f"{x.tolist()} decodes to {np.asarray(got).tolist()} instead of {want.tolist()}"
        elif k == "int":
            c = np.minimum(np.maximum(x, np.array(s["lb"], float)), np.array(s["ub"], float))
            g = np.asarray(got)
            if not np.all(np.abs(g - c) <= 0.5 + 1e-9):
                return f"{x.tolist()} decodes to {g.tolist()}, not the nearest legal integers"
        elif k in ("string", "cat", "seq"):
            sets = V.sets_of(s) if k != "seq" else [s["sets"]]
            for j, st in enumerate(sets):
                c = min(max(x[j], 0.0), float(len(st)))
                f = c - np.floor(c)
                if f > 1 - 1e-3 and c < len(st):
                    continue
                cell = min(int(np.floor(c)), len(st) - 1)
                if k == "seq":
                    code = float(np.asarray(v.encode(got[0]), float)[0])
                    if len({repr(V.conv(s)(q)) for q in st}) != len(st):
                        continue
                else:
                    code = float(np.asarray(v.encode(list(got)), float)[j])
                if code != cell:
                    return f"coordinate {x[j]!r} of {s['kind']} with {len(st)} values decodes to {got[j]!r} (cell {code}) instead of cell {cell}"
        elif k == "perm":
            codes = np.asarray(v.encode(list(got)), float)
            for i in range(len(x)):
                for j in range(len(x)):
                    if x[i] < x[j] and not codes[i] < codes[j]:
                        return f"{x.tolist()} decodes to {got!r} with ranks {codes.tolist()}: order of coordinates {i} and {j} is not kept"
        elif k in ("bin", "bool"):
            for i in range(len(x)):
                want = 1 if x[i] >= 1.0 else 0
                if int(got[i]) != want:
                    return f"coordinate {x[i]!r} decodes to {got[i]!r} instead of {want}"
        return None

    def one(self, sp, vars_, P, rng, r):
        vals, encs, hos, goth = [], [], [], []
        for s, v in zip(sp, vars_):
            val = V.legal_value(rng, s)
            given = V.as_given(rng, s, val)
            enc = np.asarray(v.encode(given), dtype=float)
            lo, hi = E.space_bounds([s])
            if enc.shape != lo.shape:
                r.v(f"encode-shape:{s['kind']}", f"{val!r} is encoded with shape {enc.shape} instead of {lo.shape}")
                return
            if np.any(enc < np.minimum(lo, v.lb)) or np.any(enc > np.maximum(hi, v.ub)):
                r.v(f"encode-range:{s['kind']}", f"{val!r} is encoded as {enc.tolist()}, outside {lo.tolist()}..{hi.tolist()}")
            dec = v.decode(enc)
            r.n("roundtrips")
            got = dec[0] if s["kind"] == "seq" else dec
            if s["kind"] == "seq" and len(dec) != 1:
                r.v("decode-shape:seq", f"decoding gives {dec!r}")
            if not V.equal_value(s, got, val):
                r.v(f"roundtrip:{s['kind']}", f"{val!r} -> encode {enc.tolist()} -> decode {dec!r}", spec=s)
                return
            h = V.hostile(rng, s)
            hc = h.copy()
            d = v.decode(h)
            r.n("vectors_decoded")
            if not np.array_equal(h, hc):
                r.v(f"decode-mutates:{s['kind']}", f"decoding changed its input {hc.tolist()} to {h.tolist()}")
            m = Q.legal([s], {s["name"]: d[0] if v.n_vars == 1 else d})
            if m is None:
                m = self.cell(s, v, hc, d)
            if m:
                r.v(f"decode:{s['kind']}", m, spec=s, vector=hc.tolist())
                return
            vals.append(given if s["kind"] != "seq" else val)
            encs.append(enc)
            hos.append(hc)
            goth.append(d)
        # the whole problem
        e = np.asarray(P.encode_solution(vals), float)
        if not np.array_equal(e, np.concatenate(encs)):
            r.v("problem-encode", f"{vals!r} is encoded as {e.tolist()} instead of {np.concatenate(encs).tolist()}")
        x = np.concatenate(hos)
        for vec, det in ((e, True), (x, False)):
            vc = vec.copy()
            d = P.decode_solution(vec)
            r.n("problem_decodes")
            m = Q.legal(sp, d)
            if not np.array_equal(vec, vc):
                m = "decoding changed its input"
            if m is None and list(d) != [s["name"] for s in sp]:
                m = f"entries {list(d)} instead of {[s['name'] for s in sp]}"
            if m is None:
                for i, s in enumerate(sp):
                    g = d[s["name"]]
                    if s["kind"] in ("tfbin", "tfbool") and not det:
                        continue
                    want = (vals[i] if det else goth[i])
                    if det:
                        w = V.legal_value  # noqa
                        ok = V.equal_value(s, g if s["kind"] == "seq" or V.n_vars(s) > 1 else wrap(s, g), want if s["kind"] in ("seq", "string", "cat", "perm", "bin", "bool", "tfbin", "tfbool") else np.asarray(want))
                    else:
                        ok = same(g, goth[i][0] if vars_[i].n_vars == 1 else goth[i])
                    if not ok:
                        m = f"entry {s['name']} is {g!r}, but its own slice decodes to {want!r}"
                        break
            if m:
                r.v("problem-decode", m, space=sp, vector=vc.tolist())
                return


def wrap(s, g):
    return np.array([g]) if s["kind"] in ("float", "int", "bin", "bool", "tfbin", "tfbool") else [g]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b


CHECK = C10()
