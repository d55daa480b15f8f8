import math
import warnings
import numpy as np
from mon import core, engine as E, gen
from mon.pair import quiet

V = {"vstf_01": lambda x: abs(math.erf(math.sqrt(math.pi) / 2 * x)), "vstf_02": lambda x: abs(math.tanh(x)), "vstf_03": lambda x: abs(x) / math.hypot(1.0, x),
     "vstf_04": lambda x: abs(2 / math.pi * math.atan(math.pi / 2 * x))}


def logistic(z):
    return 1 / (1 + math.exp(-z)) if z >= 0 else (math.exp(z) / (1 + math.exp(z)) if z > -745 else 0.0)


S = {"sstf_01": lambda x: logistic(2 * x), "sstf_02": logistic, "sstf_03": lambda x: logistic(x / 3), "sstf_04": lambda x: logistic(x / 2)}
TF = {**V, **S}


def ref(name, x):
    if name == "vstf_01" and abs(x) > 1e300 or name == "vstf_04" and abs(x) > 1e300 or name == "sstf_01" and abs(x) > 1e300:
        return 1.0 if (name[0] == "v" or x > 0) else 0.0
    return TF[name](x)


def bernoulli(x, a=0.5):
    return x / (1 - a) if x <= 1 - a else (x - (1 - a)) / a


def piecewise(x, a=0.4):
    x = min(x, 1 - x)           # symmetric around one half
    return x / a if x < a else (x - a) / (0.5 - a)


# map: (formula, interval of the states, admissible initial values, parameter ranges, is the formula continuous?)
MAPS = {
    "bernoulli_map": (bernoulli, (0.0, 1.0), (0.0, 1.0), {"a": (0.05, 0.95)}),
    "logistic_map": (lambda x, a=4.0: a * x * (1 - x), (0.0, 1.0), (0.0, 1.0), {"a": (0.0, 4.0)}),
    "chebyshev_map": (lambda x, a=4.0: math.cos(a * math.acos(x)), (-1.0, 1.0), (-1.0, 1.0), {"a": (0.0, 20.0)}),
    "circle_map": (lambda x, a=0.5, b=0.2: math.fmod(x + b - a / (2 * math.pi) * math.sin(2 * math.pi * x) + 10, 1.0), (0.0, 1.0), (0.0, 1.0), {"a": (0.0, 4.0), "b": (0.0, 1.0)}),
    "cubic_map": (lambda x, q=2.59: q * x * (1 - x ** 2), (0.0, 1.0), (0.0, 1.0), {"q": (0.0, 2.598)}),
    "icmic_map": (lambda x, a=0.7: abs(math.sin(a / x)) if x and not math.isinf(a / x) else 0.1, (0.0, 1.0), (-1.0, 1.0), {"a": (0.1, 10.0)}),
    "piecewise_map": (piecewise, (0.0, 1.0), (0.0, 1.0), {"a": (0.02, 0.48)}),
    # the published polynomial is negative beyond 0.9996, which its own orbits do not reach
    "singer_map": (lambda x, a=1.07: a * x * (7.86 - x * (23.31 - x * (28.75 - 13.302875 * x))), (0.0, 1.0), (0.0, 0.999), {"a": (0.9, 1.07)}),
    "sinusoidal_map": (lambda x, a=2.3: a * x ** 2 * math.sin(math.pi * x), (0.0, 1.0), (0.0, 1.0), {"a": (0.0, 2.3)}),
    "tent_map": (lambda x: x / 0.7 if x < 0.7 else 10 / 3 * (1 - x), (0.0, 1.0), (0.0, 1.0), {}),
}
CUTS = {"bernoulli_map": lambda a=0.5: [1 - a], "piecewise_map": lambda a=0.4: [a, 0.5, 1 - a], "circle_map": lambda **k: "mod", "tent_map": lambda: [0.7]}


def ulp_bound(p, n):
    """Deviation of a frequency that has probability below 1e-12 (Hoeffding)."""
    return math.sqrt(math.log(2 / 1e-12) / (2 * n))


class C26(core.Check):
    id = "C26"
    technique = "online range and reference monitors on the helper functions over boundary and random inputs and long chaotic orbits; frequency monitor on transfer variables"
    rule = ("case = transfer function (values over 600 orders of magnitude, arrays of all shapes and number types), transfer variable (frequency of ones), chaotic map (parameters x initial values x "
            "thousands of steps), or fuzzy system; distinct by function, kind of input and parameter")
    assumptions = ("the singer map is used from initial values up to 0.999 (its polynomial is negative beyond)", "finite inputs", "frequencies are judged with a false-alarm probability below 1e-11 each")
    orbits = {"quick": 60, "thorough": 1500}
    steps = {"quick": 3000, "thorough": 20000}
    floors = {"transfer_values": 20000, "frequencies": 200, "orbit_steps": 500000, "memberships": 20000, "weights": 3000}

    def cases(self, seed, tier):
        out = []
        for f in sorted(TF):
            out.append({"part": "tf", "f": f, "n": 4000 if tier == "quick" else 60000})
        for cls in ("TransferBinaryVar", "TransferBoolVar"):
            for f in sorted(TF):
                out.append({"part": "var", "cls": cls, "f": f, "n": 2000 if tier == "quick" else 20000})
        for m in MAPS:
            for k in range(4):
                out.append({"part": "map", "m": m, "n": self.orbits[tier] // 4, "steps": self.steps[tier]})
        for t in ("increase", "decrease"):
            out.append({"part": "fuzzy", "type": t, "n": 3000 if tier == "quick" else 40000})
        for i, c in enumerate(out):
            c["seed"] = int(gen.rng_for(seed, "C26", i).integers(0, 2 ** 31))
        return out

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            getattr(self, case["part"])(case, rng, r)
        r.sample(f"{case}: {dict(r.stats)}")
        return r

    # ------------------------------------------------------------------ transfer functions
    def tf(self, case, rng, r):
        from mealpy.utils import transfer
        name = case["f"]
        f = getattr(transfer, name)
        xs = [0.0, 1.0, -1.0, 8.0, -8.0, 0.5, 20.0, 37.0, -37.0, 710.0, -710.0, 1e3, -1e3, 1e6, 1e16, -1e16, 1e154, 1e155, 1e200, -1e200, 1e308, -1e308, 5e-324, 1e-300, -1e-300]
        xs += list(rng.uniform(-10, 10, case["n"] // 2)) + [float(s * 10 ** e) for s, e in zip(rng.choice([-1, 1], case["n"] // 2), rng.uniform(-30, 300, case["n"] // 2))]
        got = []
        for x in xs:
            for v, kind in ((x, "float"), (np.float64(x), "np")):
                y = f(v)
                r.n("transfer_values")
                if not (np.ndim(y) == 0 and 0.0 <= float(y) <= 1.0):
                    r.v(f"transfer-range:{name}", f"{name}({v!r}) = {y!r} is not a probability")
                elif abs(float(y) - ref(name, x)) > 1e-9:
                    r.v(f"transfer-value:{name}", f"{name}({v!r}) = {float(y)!r}, the formula gives {ref(name, x)!r}")
            r.sig(name, "mag", int(math.log10(abs(x)) // 10) if x else "zero", x > 0)
            got.append(float(f(x)))
        for k in (0, 1, -1, 3, -7, 10 ** 6, -10 ** 6, 10 ** 10, -10 ** 10):
            for v in (k, np.int64(k), np.array([k, 0])):
                y = np.atleast_1d(f(v))
                r.n("transfer_values")
                if not abs(float(y[0]) - ref(name, float(k))) < 1e-9:
                    r.v(f"transfer-value:{name}", f"{name}({v!r}) = {y!r}, the formula gives {ref(name, float(k))!r}")
        order = np.argsort(np.abs(xs) if name[0] == "v" else xs, kind="stable")
        ys = np.array(got)[order]
        if np.any(np.diff(ys) < -1e-12):
            i = int(np.argmin(np.diff(ys)))
            r.v(f"transfer-shape:{name}", f"{name} falls from {ys[i]} to {ys[i + 1]} between {np.array(xs)[order][i]!r} and {np.array(xs)[order][i + 1]!r}")
        if name[0] == "v":
            if float(f(0.0)) != 0.0:
                r.v(f"transfer-shape:{name}", f"{name}(0) = {f(0.0)!r}")
            for x in xs[:400]:
                if float(f(x)) != float(f(-x)):
                    r.v(f"transfer-shape:{name}", f"{name} is not even at {x!r}: {f(x)!r} and {f(-x)!r}")
        elif abs(float(f(0.0)) - 0.5) > 1e-15:
            r.v(f"transfer-shape:{name}", f"{name}(0) = {f(0.0)!r}")
        for shape in ((1,), (7,), (3, 5), (2, 3, 4), (0,)):
            a = rng.uniform(-12, 12, shape)
            keep = a.copy()
            y = f(a)
            r.sig(name, "shape", shape)
            if np.shape(y) != shape:
                r.v(f"transfer-array:{name}", f"{name} of an array of shape {shape} has shape {np.shape(y)}")
            elif not np.array_equal(a, keep):
                r.v(f"transfer-array:{name}", f"{name} changes its argument")
            elif a.size and np.max(np.abs(np.ravel(y) - np.array([f(float(v)) for v in a.ravel()]))) > 1e-14:
                r.v(f"transfer-array:{name}", f"{name} of an array differs from the values of its elements")

    def var(self, case, rng, r):
        import mealpy
        name, n = case["f"], case["n"]
        for x in list(rng.uniform(-9, 9, 24)) + [0.0, 8.0, -8.0, 8.5, -30.0, 0.3, -0.3]:
            x = float(x)
            if x in (0.0, 1.0):
                x += 1e-6
            v = getattr(mealpy, case["cls"])(n_vars=n, tf_func=name)
            v.set_seed(int(rng.integers(0, 2 ** 31))) if hasattr(v, "set_seed") else v.seed
            p = ref(name, min(8.0, max(-8.0, x)))
            for meth in ("correct", "decode"):
                out = np.asarray(getattr(v, meth)(np.full(n, x)))
                r.n("frequencies")
                r.sig(case["cls"], name, meth, round(x))
                if out.shape != (n,) or not np.all((out == 0) | (out == 1)):
                    r.v(f"transfer-var-domain:{case['cls']}", f"{meth} of {n} coordinates {x} is {out[:5]}... of shape {out.shape}")
                elif abs(out.mean() - p) > ulp_bound(p, n):
                    r.v(f"transfer-var-frequency:{case['cls']}:{name}", f"{case['cls']}({name}).{meth} of coordinate {x!r} is one in {out.mean():.4f} of {n} draws, the transfer function gives {p:.4f}")
        for bad in ("vstf_05", "", None, "tanh", "erf", "np", 3):
            try:
                getattr(mealpy, case["cls"])(n_vars=2, tf_func=bad)
            except Exception:
                r.n("refused")
            else:
                r.v(f"transfer-unknown:{case['cls']}", f"unknown transfer function {bad!r} is accepted")

    # ------------------------------------------------------------------ chaotic maps
    def map(self, case, rng, r):
        from mealpy.utils.chaotic import ChaoticMap
        name = case["m"]
        f = getattr(ChaoticMap, name)
        want, (lo, hi), (ilo, ihi), pr = MAPS[name]
        cutf = CUTS.get(name)
        tol = 1e-9
        for k in range(case["n"]):
            kw = {}
            for p, (a, b) in pr.items():
                u = rng.random()
                if u < 0.35:
                    continue
                kw[p] = float(rng.uniform(a, b)) if u < 0.9 else float(rng.choice([a, b]))
            cuts = cutf(**kw) if cutf else []
            cuts = [] if cuts == "mod" else cuts
            spots = [ilo, ihi, (ilo + ihi) / 2, 0.7, 0.3, 0.5, 0.25, 0.75, 0.1, 1 / 3, 5e-324, 1e-320, 1e-308, 1e-17, 2.0 ** -53]
            for c in cuts:
                spots += [c, float(np.nextafter(c, 0)), float(np.nextafter(c, 1))]
            spots += [float(np.nextafter(ilo, 2)), float(np.nextafter(ihi, -2))]
            spots = [s for s in spots if ilo <= s <= ihi]
            x0s = [float(rng.uniform(ilo, ihi))] + ([spots[k % len(spots)], spots[int(rng.integers(len(spots)))]])
            # one step from every special value
            for x in spots + list(rng.uniform(ilo, ihi, 40)):
                x = float(x)
                self.step(name, f, x, kw, want, cuts, lo, hi, tol, r)
            for x0 in x0s:
                x = x0
                r.sig(name, sorted(kw), "orbit", round(x0, 2))
                for i in range(case["steps"]):
                    y = self.step(name, f, x, kw, want, cuts, lo, hi, tol, r)
                    if y is None:
                        break
                    x = y
            # the reported state does not depend on what was computed before
            x = float(rng.uniform(ilo, ihi))
            if f(x, **kw) != f(x, **kw):
                r.v(f"chaos-state:{name}", f"{name}({x!r}) gives two different results")

    def step(self, name, f, x, kw, want, cuts, lo, hi, tol, r):
        r.n("orbit_steps")
        try:
            y = float(f(x, **kw))
        except Exception as e:
            r.v(f"chaos-error:{name}", f"{name}({x!r}, {kw}) fails: {type(e).__name__}: {e}")
            return None
        if not (lo <= y <= hi):
            r.v(f"chaos-range:{name}", f"{name}({x!r}, {kw}) = {y!r} leaves [{lo}, {hi}]")
            return None
        w = want(x, **kw)
        ok = abs(y - w) <= tol
        if not ok:      # both sides of a jump are admissible on the jump; a phase may wrap around
            if name == "circle_map":
                ok = abs(abs(y - w) - 1.0) <= tol
            elif any(abs(x - c) <= 1e-12 for c in cuts):
                ok = any(abs(y - want(min(hi, max(lo, c + d)), **kw)) <= 1e-6 for c in cuts for d in (-1e-9, 1e-9))
            elif name == "icmic_map":
                ok = abs(kw.get("a", 0.7) / x) > 1e5 if x else False
        if not ok:
            r.v(f"chaos-value:{name}", f"{name}({x!r}, {kw}) = {y!r}, the map gives {w!r}")
        return y

    # ------------------------------------------------------------------ fuzzy weights
    def fuzzy(self, case, rng, r):
        from mealpy.utils.fuzzy import FuzzySystem
        fs = FuzzySystem(pyramid_type=case["type"])
        for i in range(case["n"]):
            a, b, c = sorted(float(x) for x in (rng.uniform(-3, 3, 3) if rng.random() < 0.7 else rng.integers(-2, 3, 3)))
            if a == c:
                continue
            if rng.random() < 0.25:
                b = a if rng.random() < 0.5 else c
            xs = [a, b, c, (a + b) / 2, (b + c) / 2, a - 1, c + 1, a - 1e-9, c + 1e-9, float(rng.uniform(a - 0.5, c + 0.5))]
            for x in xs:
                m = fs.triangular_membership(x, a, b, c)
                r.n("memberships")
                w = 1.0 if x == b else 0.0 if x <= a or x >= c else (x - a) / (b - a) if x < b else (c - x) / (c - b)
                r.sig("tri", a == b, b == c, "left" if x < b else "right" if x > b else "peak")
                if not 0 <= m <= 1:
                    r.v("fuzzy-range", f"membership of {x} in the triangle {(a, b, c)} is {m!r}")
                elif abs(m - w) > 1e-9 * max(1, 1e-9 / max(1e-9, min(abs(b - a), abs(c - b)))):
                    r.v("fuzzy-value", f"membership of {x} in the triangle {(a, b, c)} is {m!r} instead of {w!r}")
        prev = None
        for n in (1, 2, 3, 5, 10, 1000, int(rng.integers(2000, 5000))):
            prev = None
            for k in range(0, n + 1):
                w = fs.get_fuzzy_weights(k, n)
                ms = fs.fuzzify_iterations(k / n)
                r.n("weights")
                r.sig("weights", case["type"], n, k // max(1, n // 20))
                t = k / n
                want = {"low": max(0.0, 1 - 2 * t), "medium": 1 - abs(2 * t - 1), "high": max(0.0, 2 * t - 1)}
                if set(ms) != set(want) or any(abs(ms[q] - want[q]) > 1e-9 for q in want):
                    r.v("fuzzy-iterations", f"progress {k}/{n} is fuzzified to {ms} instead of {want}")
                if len(w) != 3 or any(not 25 - 1e-9 <= x <= 75 + 1e-9 for x in w):
                    r.v("fuzzy-weights", f"weights at {k}/{n}: {w}, outside the centres of the output sets (25 to 75)")
                elif n >= 1000 and prev is not None and max(abs(x - y) for x, y in zip(w, prev)) > 60.0 / n * 4:
                    r.v("fuzzy-jump", f"weights jump between {k - 1}/{n} and {k}/{n}: {prev} to {w}")
                prev = w
        for ms in [dict(zip(("low", "medium", "high"), rng.random(3) * (rng.random(3) < 0.7))) for _ in range(400)]:
            d = float(fs.defuzzify_centroid(ms))
            t = sum(ms.values())
            w = (25 * ms["low"] + 50 * ms["medium"] + 75 * ms["high"]) / t if t else 50.0
            r.n("memberships")
            if not 25 - 1e-9 <= d <= 75 + 1e-9 or abs(d - w) > 1e-9:
                r.v("fuzzy-centroid", f"the centroid of {ms} is {d!r} instead of {w!r}")


CHECK = C26()
