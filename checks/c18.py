import json
import math
import os
import numpy as np
from mon import core, engine as E, gen, oracles as Q
from mon.pair import differ, quiet
from mealpy.utils.validator import Validator

NOT_NUMBER = ["abc", None, [1], (0.5,), {"a": 1}, np.array([0.5, 0.7]), object]
# attributes that the algorithm defines as something else than the parameter of that name
ATTR_OTHER = {("OriginalPO", "pop_size"): "number of parties x number of areas"}
# pairs the constructor puts in order
SORTED_PAIR = {"OriginalSSpiderO": ("fp_min", "fp_max")}
EFFECTS = json.load(open(os.path.join(core.ROOT, "spec", "effects.json")))
NOT_STR = [5, None, 1.5, ["x"], True]
NOT_BOOL = [1, 0, "True", None, 1.0]


def num(x):
    return float(x) if isinstance(x, str) else x


def ranges(chk):
    """[(lo, hi, open, is_int)] numeric ranges of a check, or None."""
    b = chk["bounds"]
    m = chk["method"]
    if m == "check_int":
        return [(num(b[0]["v"][0]), num(b[0]["v"][1]), b[0]["kind"] == "open", True)] if b and b[0] else None
    if m == "check_float":
        return [(num(b[0]["v"][0]), num(b[0]["v"][1]), b[0]["kind"] == "open", False)] if b and b[0] else None
    if m == "check_is_int_and_float":
        return [(num(b[0]["v"][0]), num(b[0]["v"][1]), b[0]["kind"] == "open", True), (num(b[1]["v"][0]), num(b[1]["v"][1]), b[1]["kind"] == "open", False)]
    return None


def inside(rng, lo, hi, opn, is_int):
    out = []
    if is_int:
        l, h = math.ceil(lo), math.floor(hi)
        if opn:
            l, h = (l + 1 if l == lo else l), (h - 1 if h == hi else h)
        if l > h:
            return []
        out = [l, h, min(l + 1, h), max(h - 1, l), int(rng.integers(l, h + 1))]
        return sorted(set(out))
    if not (np.isfinite(lo) and np.isfinite(hi)):
        return [1.5]
    if not opn:
        out += [float(lo), float(hi)]
    if hi > lo:
        w = hi - lo
        out += [float(lo + 1e-9 * w) if lo + 1e-9 * w > lo else float(np.nextafter(lo, np.inf)), float(np.nextafter(hi, -np.inf)), float(lo + w * rng.random() * 0.98 + 0.01 * w), float((lo + hi) / 2)]
        k = math.floor(lo) + 1
        if lo < k < hi:
            out.append(int(k))          # a whole number is a number
    return out


def outside(rng, lo, hi, opn, is_int):
    out = []
    if is_int:
        l, h = math.ceil(lo), math.floor(hi)
        if opn:
            out += [l] if l == lo else []
            out += [h] if h == hi else []
        out += [l - 1, h + 1, l - int(rng.integers(2, 50)), h + int(rng.integers(2, 10 ** 6)), -10 ** 12, 10 ** 12]
    else:
        if opn:
            out += [float(lo), float(hi)]
        w = max(hi - lo, 1.0)
        out += [float(np.nextafter(lo, -np.inf)), float(np.nextafter(hi, np.inf)), float(lo - w * rng.random() - 0.01), float(hi + w * rng.random() + 0.01), float("nan"), float("inf"), float("-inf")]
        out = [v for v in out if not (np.isinf(v) and (np.isinf(lo) or np.isinf(hi)))]
    return out


class C18(core.Check):
    id = "C18"
    technique = "monitor of constructors and setters against a committed table of every hyper-parameter's range, and of paired runs (fresh against reconfigured optimizer)"
    rule = ("case = optimizer: every parameter at, just inside and just outside each limit, in the middle, far away and with values of other kinds, for several population sizes and epochs where "
            "the range depends on them; reported values; random reconfigurations through the setter with the following run compared to a fresh optimizer's; distinct by optimizer, parameter and position")
    assumptions = ("spec/params.json states the ranges (captured from the pinned tree and reviewed)", "a fractional value given for an integer parameter is truncated (tests/utils/test_validator.py states it)",
                   "parameters not under test keep their default, or fit the population size where they depend on it")
    runs = {"quick": 6, "thorough": 60}
    wall_per_case = 400.0
    floors = {"accepted": 5000, "rejected": 8000, "setter_runs": 1200, "rebuilt": 800, "reported": 1000, "effects": 500, "validator_calls": 8000, "option_runs": 15}

    def cases(self, seed, tier):
        out = []
        for i, a in enumerate(gen.ALGOS):
            out.append({"algo": a, "seed": int(gen.rng_for(seed, "C18", a).integers(0, 2 ** 31)), "runs": self.runs[tier]})
        for i in range(8 if tier == "quick" else 40):
            out.append({"algo": "(validator)", "seed": int(gen.rng_for(seed, "C18", "validator", i).integers(0, 2 ** 31)), "n": 400})
        return out

    def run(self, case):
        r = core.R()
        a = case["algo"]
        if a == "(validator)":
            self.validator(case, r)
            return r
        rng = np.random.default_rng(case["seed"])
        try:
            with quiet():
                self.defaults(a, r)
                self.limits(a, rng, r)
                for _ in range(case["runs"]):
                    self.setter(a, rng, r)
                self.effects(a, r)
                if a in gen.EXTRA:
                    for _ in range(4 * case["runs"]):
                        self.options(a, rng, r)
        except Exception as e:
            import traceback
            r.v(f"crash:{a}", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
        r.sample(f"{a}: {len(gen.SPEC[a]['checks'])} parameters, {dict(r.stats)}")
        return r

    def validator(self, case, r):
        """The validator itself, for random kinds, bounds (open, closed, half infinite) and values in, on and out of them."""
        rng = np.random.default_rng(case["seed"])
        with quiet():
            v = Validator(log_to=None, log_file=None)
        inf = float("inf")

        def bound(is_int):
            lo = int(rng.integers(-50, 50)) if is_int else float(round(rng.uniform(-5, 5), int(rng.integers(0, 4))))
            hi = lo + (int(rng.integers(3, 60)) if is_int else float(round(rng.uniform(0.1, 9), 2)))
            lo, hi = (-inf if rng.random() < 0.15 else lo), (inf if rng.random() < 0.15 else hi)
            return (lo, hi) if rng.random() < 0.4 else [lo, hi]

        def ok(x, b):
            return b[0] < x < b[1] if isinstance(b, tuple) else b[0] <= x <= b[1]

        def value(b, is_int):
            ends = [e for e in b if abs(e) != inf] or [0]
            e = ends[int(rng.integers(len(ends)))]
            k = int(rng.integers(5))
            if is_int:
                x = int(e) + [0, 1, -1, int(rng.integers(-80, 80)), int(rng.integers(-4, 4))][k]
                return np.int64(x) if rng.random() < 0.2 else x
            x = float([e, np.nextafter(e, inf), np.nextafter(e, -inf), e + rng.uniform(-12, 12), e + rng.uniform(-1, 1)][k])
            return np.float64(x) if rng.random() < 0.2 else x

        def call(what, want, f, *args):
            try:
                got, err = f("p", *args), None
            except ValueError as e:
                got, err = None, e
            except Exception as e:
                r.v(f"validator:{what}", f"{what}{args!r}: {type(e).__name__}: {e}")
                return
            r.sig("validator", what, want, repr(args)[:40])
            r.n("validator_calls")
            if want != (err is None):
                r.v(f"validator:{what}", f"{what}{args!r} is {'accepted' if err is None else 'refused'}")
            elif want and not (type(got) is type(args[0]) or isinstance(got, (int, float, np.number)) and isinstance(args[0], (int, float, np.number))):
                r.v(f"validator:{what}", f"{what}{args!r} gives {got!r}")
            elif want and not (list(got) == list(args[0]) if isinstance(args[0], (list, tuple, np.ndarray)) else got == args[0]):
                r.v(f"validator:{what}", f"{what}{args!r} gives {got!r}")

        words = ["a", "b", "best", "BEST", "", " a", "a ", "roulette", "random"]
        for _ in range(case["n"]):
            is_int = bool(rng.random() < 0.5)
            b = bound(is_int)
            x = value(b, is_int)
            call("check_int" if is_int else "check_float", ok(x, b), v.check_int if is_int else v.check_float, x, b)
            k = int(rng.integers(2, 6))
            bs = [bound(is_int) for _ in range(k)]
            xs = [value(b, is_int) for b in bs]
            if rng.random() < 0.6:       # legal but for at most one member
                for j, b in enumerate(bs):
                    lo, hi = max(b[0], -90), min(b[1], 90)
                    if not ok(xs[j], b):
                        xs[j] = int(lo + 1 + (hi - lo - 2) * rng.random()) if is_int else float(lo + (hi - lo) * rng.uniform(0.1, 0.9))
                j = int(rng.integers(k))
                if rng.random() < 0.7:
                    xs[j] = value(bs[j], is_int)
            seq = [list(xs), tuple(xs), np.array(xs)][int(rng.integers(3))]
            call("check_tuple_int" if is_int else "check_tuple_float", all(ok(x, b) for x, b in zip(list(seq), bs)), v.check_tuple_int if is_int else v.check_tuple_float, seq, tuple(bs))
            w, ws = str(rng.choice(words)), [str(t) for t in rng.choice(words, int(rng.integers(1, 5)), replace=False)]
            call("check_str", w in ws, v.check_str, w, ws)
            bi, bf = [int(rng.integers(-5, 3)), int(rng.integers(3, 30))], (0.0, float(round(rng.uniform(0.2, 2), 2)))
            x = int(rng.integers(-9, 36)) if is_int else float(rng.choice([0.0, bf[1], rng.uniform(-0.5, 2.5)]))
            call("check_is_int_and_float", ok(x, bi if is_int else bf), v.check_is_int_and_float, x, bi, bf)
            for bad in (None, "3", [1], (1, 2), {}, 1j if False else object()):
                if rng.random() < 0.1:
                    call("check_int", False, v.check_int, bad, [-100, 100])
                    call("check_float", False, v.check_float, bad, [-100, 100])
                    if not isinstance(bad, str):
                        call("check_str", False, v.check_str, bad, words)
                    call("check_bool", False, v.check_bool, bad)

    def defaults(self, a, r):
        s = gen.SPEC[a]
        m = E.ALL[a]()
        got = m.get_parameters()
        r.n("reported", len(got))
        want = s["defaults"]
        if set(got) != set(want):
            r.v(f"incomplete:{a}", f"a fresh optimizer reports {sorted(got)}, its parameters are {sorted(want)}")
            return
        for k, v in want.items():
            if type(got[k]) is not type(v) and not (isinstance(v, float) and isinstance(got[k], float)) or got[k] != v and not (isinstance(v, str) and repr(got[k]) == v):
                if isinstance(v, str) and repr(got[k]) == v or isinstance(v, (list, tuple)) and list(got[k]) == list(v):
                    continue
                if isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(got[k], (int, float)) and got[k] == v:
                    continue
                r.v(f"default:{a}:{k}", f"a fresh optimizer reports {k}={got[k]!r}, the default is {v!r}")

    def context(self, a, p, rng):
        """Other parameters and the range of p that goes with them."""
        s = gen.SPEC[a]
        out = [({}, s["checks"][p])]
        for q, key in (("pop_size", "pop_bounds"), ("epoch", "ep_bounds")):
            b = s[key].get(p)
            if b:
                ks = [k for k in b if q == "epoch" or int(k) in s["pops_ok"] or True]
                for k in [ks[int(i)] for i in rng.permutation(len(ks))[:4]]:
                    out.append(({q: int(k)}, b[k]))
        return out

    def others(self, a, p, ctx, rng):
        """Values that fit for the parameters that depend on the population size or the epochs in this context."""
        kw = dict(ctx)
        if not ctx:
            return kw
        s = gen.SPEC[a]
        for q in s["pop_dep"] if "pop_size" in ctx else s["ep_dep"]:
            if q == p or q not in s["defaults"]:
                continue
            b = s["pop_bounds"].get(q, {}).get(str(ctx.get("pop_size"))) or s["ep_bounds"].get(q, {}).get(str(ctx.get("epoch")))
            if b:
                rs = ranges(b)
                d = s["defaults"][q]
                if rs and not (rs[0][0] <= (d if isinstance(d, (int, float)) else -1e99) <= rs[0][1]):
                    v = inside(rng, *rs[0])
                    if v:
                        kw[q] = v[0]
        return kw

    def limits(self, a, rng, r):
        s = gen.SPEC[a]
        cls = E.ALL[a]
        for p, chk0 in s["checks"].items():
            for ctx, chk in self.context(a, p, rng):
                kw = self.others(a, p, ctx, rng)
                good, bad = [], []
                rs = ranges(chk)
                if rs:
                    for x in rs:
                        good += inside(rng, *x)
                    if chk["method"] == "check_is_int_and_float":
                        for x in rs:
                            bad += [v for v in outside(rng, *x)]
                    else:
                        bad += outside(rng, *rs[0])
                    if rs[0][3] and good and len(rs) == 1:
                        good.append(np.int64(good[0]))
                    bad += NOT_NUMBER
                elif chk["method"] == "check_str":
                    good = list(chk["bounds"][0]["v"]) if chk["bounds"] and chk["bounds"][0] else []
                    bad = list(NOT_STR)
                    if good:
                        bad += ["no-such-value", "", good[0].upper() + "_", good[0][:-1], " " + good[0]]
                        bad = [v for v in bad if v not in good]
                elif chk["method"] == "check_bool":
                    good, bad = [True, False], list(NOT_BOOL)
                else:
                    continue
                if p in ("epoch", "pop_size") and rs:
                    dep = s["ep_dep"] if p == "epoch" else s["pop_dep"]
                    if dep:         # other ranges move with this one: only values for which the defaults are known to fit
                        keep = set(s["pops_ok"]) if p == "pop_size" else set()
                        good = [v for v in good if v in keep or v == s["defaults"][p]] + [v for v in sorted(keep)][:3]
                for v in good:
                    r.sig(a, p, "in", repr(v)[:12])
                    try:
                        m = cls(**{**kw, p: v})
                    except Exception as e:
                        if any(f"'{q}'" in str(e) for q in s["checks"] if q != p):
                            r.n("joint_refused")        # another parameter's range depends on this one and its default does not fit
                            continue
                        r.v(f"refused:{a}:{p}", f"{p}={v!r} {ctx or ''} is inside its range {chk['bounds']} but refused: {type(e).__name__}: {e}")
                        break
                    r.n("accepted")
                    pair = SORTED_PAIR.get(a, ())
                    if p in pair:
                        given = {**{q: s["defaults"][q] for q in pair}, p: v}
                        if [m.get_parameters()[q] for q in pair] != sorted(given.values()):
                            r.v(f"reported:{a}:{p}", f"{given} was given, {[m.get_parameters()[q] for q in pair]} is reported")
                        continue
                    got = m.get_parameters().get(p, "missing")
                    okt = type(got) is str if isinstance(v, str) else type(got) is bool if isinstance(v, bool) else isinstance(got, (int, float, np.integer))
                    if not okt or got != v:
                        r.v(f"reported:{a}:{p}", f"{p}={v!r} was given, {got!r} is reported")
                        break
                    rest = {k: x for k, x in m.get_parameters().items() if k != p}
                    for k, x in rest.items():
                        w = kw.get(k, s["defaults"][k])
                        if isinstance(w, (int, float, bool)) and x != w:
                            r.v(f"reported:{a}:{k}", f"with {p}={v!r} the parameter {k} is reported as {x!r} instead of {w!r}")
                    att = getattr(m, p, "missing")
                    if (a, p) not in ATTR_OTHER and isinstance(att, (int, float, str, bool)) and att != v and not isinstance(att, np.ndarray):
                        r.v(f"attribute:{a}:{p}", f"{p}={v!r} was given, the attribute is {att!r}")
                for v in bad:
                    r.sig(a, p, "out", repr(v)[:12])
                    try:
                        m = cls(**{**kw, p: v})
                    except Exception:
                        r.n("rejected")
                        continue
                    r.v(f"accepted:{a}:{p}", f"{p}={v!r} {ctx or ''} is outside its range {chk['method']} {chk['bounds']} but accepted (reported {m.get_parameters().get(p)!r})")
                    break

    def setter(self, a, rng, r):
        s = gen.SPEC[a]
        cls = E.ALL[a]
        pop = int(rng.choice(s["pops_ok"] or [20]))
        c = {"algo": a, "pop_size": pop, "epoch": 3, "space": [gen.float_space(rng, 2)], "obj": "rastrigin", "minmax": str(rng.choice(["min", "max"])), "seed": int(rng.integers(0, 2 ** 31)), "mode": "single", "budget": 30000}
        if "pop_size" not in s["defaults"]:
            c["pop_size"] = None
        c["params"] = gen.random_params(rng, a, pop, "random", 3)
        pair = SORTED_PAIR.get(a)
        if pair:
            lo_hi = sorted([c["params"].get(pair[0], s["defaults"][pair[0]]), c["params"].get(pair[1], s["defaults"][pair[1]])])
            c["params"].update(zip(pair, lo_hi))
        full = dict(c["params"], epoch=3, **({"pop_size": pop} if c["pop_size"] else {}))
        try:
            m1 = cls(**full)
        except Exception:
            r.n("joint_refused")
            return
        rep = dict(m1.get_parameters())
        for k, v in full.items():
            if isinstance(v, (int, float, str, bool)) and rep.get(k) != v:
                r.v(f"reported:{a}:{k}", f"{k}={v!r} was given, {rep.get(k)!r} is reported")
        t1 = E.run_case(c, model=m1, keep_pops=False, cpu_limit=20)
        if not t1.finished:
            return
        if dict(m1.get_parameters()) != rep:
            r.v(f"drift:{a}", f"the reported parameters changed during a run: {diff(rep, m1.get_parameters())}")
        # through the setter, on a fresh default optimizer or one that has run with other values
        m2 = cls(**{k: v for k, v in full.items() if k in ("epoch", "pop_size")}) if self.fits(cls, full) and rng.random() < 0.5 else cls()
        if rng.random() < 0.5:
            try:
                m2.set_parameters({"epoch": 2})
            except ValueError:      # other parameters do not fit two epochs
                pass
            if m2.epoch == 2 and m2.get_parameters()["epoch"] == 2:
                E.run_case(dict(c, seed=c["seed"] + 1, epoch=2), model=m2, keep_pops=False, cpu_limit=20)
        try:
            m2.set_parameters(dict(full))
        except Exception as e:
            r.v(f"setter-refused:{a}", f"set_parameters({full}) fails: {type(e).__name__}: {e}")
            return
        got = m2.get_parameters()
        for k, v in full.items():
            if isinstance(v, (int, float, str, bool)) and (got.get(k) != v or (a, k) not in ATTR_OTHER and isinstance(getattr(m2, k, v), (int, float, str, bool)) and getattr(m2, k, v) != v):
                r.v(f"setter:{a}:{k}", f"after set_parameters {k}={v!r} the optimizer reports {got.get(k)!r} and holds {getattr(m2, k, None)!r}")
        t2 = E.run_case(c, model=m2, keep_pops=False, cpu_limit=20)
        r.n("setter_runs")
        m = Q.diff_digest(Q.trace_digest(t1), Q.trace_digest(t2))
        if m:
            r.v(f"setter-run:{a}", f"the run after set_parameters({full}) differs from the run of an optimizer built with them: {m}")
            return
        # built from what is reported
        m3 = cls(**m1.get_parameters())
        t3 = E.run_case(c, model=m3, keep_pops=False, cpu_limit=20)
        r.n("rebuilt")
        m = Q.diff_digest(Q.trace_digest(t1), Q.trace_digest(t3))
        if m:
            r.v(f"rebuild:{a}", f"an optimizer built from the reported parameters {m1.get_parameters()} behaves differently: {m}")
        # partial change
        k = sorted(full)[int(rng.integers(0, len(full)))]
        before = dict(m3.get_parameters())
        try:
            m3.set_parameters({k: full[k]})
        except Exception as e:
            r.v(f"setter-refused:{a}", f"set_parameters({{{k!r}: {full[k]!r}}}) fails: {type(e).__name__}: {e}")
        if dict(m3.get_parameters()) != before:
            r.v(f"setter-partial:{a}", f"setting {k} to its own value changes the reported parameters: {diff(before, m3.get_parameters())}")
        for nm in ("no_such_parameter", "Epoch", "", "problem", "generator", "pop", "history"):
            if nm in before:
                continue
            bad = {nm: 5, k: full[k]} if rng.random() < 0.5 else {nm: 5}
            try:
                m3.set_parameters(bad)
            except Exception:
                r.n("unknown_refused")
                if dict(m3.get_parameters()) != before:
                    r.v(f"setter-unknown:{a}", f"a refused set_parameters({bad}) changed the parameters")
                continue
            r.v(f"setter-unknown:{a}", f"set_parameters({bad}) is accepted")
            break

    def effects(self, a, r):
        """Every parameter takes part: there are values of it between which seeded runs differ."""
        for p, hits in EFFECTS.get(a, {}).items():
            for h in hits:
                out = []
                for v in (h["a"], h["b"]):
                    c = {"algo": a, "pop_size": h["pop"] if "pop_size" in gen.SPEC[a]["defaults"] else None, "epoch": h["epoch"], "space": [{"kind": "float", "lb": [-10.0] * h["dim"], "ub": [14.0] * h["dim"]}],
                         "obj": h["obj"], "minmax": h["mm"], "seed": h["seed"], "mode": "single", "budget": 60000, "params": dict(h["base"], **{p: v})}
                    try:
                        tr = E.run_case(c, keep_pops=False, cpu_limit=30)
                    except Exception:
                        break
                    if not tr.finished:
                        break
                    out.append(Q.trace_digest(tr))
                if len(out) < 2:
                    r.n("effect_unjudged")
                    break
                if Q.diff_digest(*out):
                    r.n("effects")
                    break
            else:
                r.v(f"no-effect:{a}:{p}", f"{p}={hits[0]['a']!r} and {p}={hits[0]['b']!r} give the very same run (population {hits[0]['pop']}, {hits[0]['epoch']} epochs, {len(hits)} seeds)")

    def options(self, a, rng, r):
        """Options that a constructor takes by keyword besides its parameters: ranges, effect, and that no setter loses them."""
        cls, table = E.ALL[a], gen.EXTRA[a]
        opt = gen.fix_options(a, {k: v[int(rng.integers(len(v)))] for k, v in table.items() if rng.random() < 0.7})
        pop = int(rng.choice([10, 15, 20]))
        full = dict(gen.random_params(rng, a, pop, "random", 3), epoch=3, pop_size=pop)
        c = {"algo": a, "pop_size": pop, "epoch": 3, "space": [gen.float_space(rng, 4)], "obj": "rastrigin", "minmax": str(rng.choice(["min", "max"])), "seed": int(rng.integers(0, 2 ** 31)), "mode": "single", "budget": 30000}
        try:
            m1 = cls(**full, **opt, name="given")
        except Exception as e:
            r.v(f"refused:{a}:options", f"{opt} are refused: {type(e).__name__}: {e}")
            return
        for k, v in dict(opt, name="given").items():
            if getattr(m1, k, None) != v:
                r.v(f"attribute:{a}:{k}", f"{k}={v!r} was given, the attribute is {getattr(m1, k, None)!r}")
        for k, v in table.items():
            for bad in (["no-such-value", 5, None] if isinstance(v[0], str) else ["True", 1, None] if isinstance(v[0], bool) else [0.0, 1.0, -0.5, float("nan"), "0.2"]):
                try:
                    cls(**{**full, **opt, k: bad})
                    r.v(f"accepted:{a}:{k}", f"{k}={bad!r} is accepted")
                except Exception:
                    r.n("rejected")
        t1 = E.run_case(c, model=m1, keep_pops=False, cpu_limit=20)
        m2 = cls(**opt, name="given")
        how = int(rng.integers(3))
        if how == 0:
            m2.set_parameters(dict(full))
        elif how == 1:      # one at a time, in any order
            for k in rng.permutation(sorted(full)):
                m2.set_parameters({str(k): full[k]})
        else:               # after a run with other values
            m2.set_parameters({"epoch": 2, "pop_size": 12})
            E.run_case(dict(c, epoch=2, pop_size=12, seed=c["seed"] + 1), model=m2, keep_pops=False, cpu_limit=20)
            m2.set_parameters(dict(full))
        for k, v in dict(opt, name="given").items():
            if getattr(m2, k, None) != v:
                r.v(f"setter:{a}:{k}", f"{k}={v!r} was given to the constructor; after set_parameters({full}) the optimizer holds {getattr(m2, k, None)!r}")
        t2 = E.run_case(c, model=m2, keep_pops=False, cpu_limit=20)
        r.n("option_runs")
        r.sig(a, "options", sorted(opt.items()), how)
        m = Q.diff_digest(Q.trace_digest(t1), Q.trace_digest(t2)) if t1.finished and t2.finished else "one of them did not finish"
        if m:
            r.v(f"setter-run:{a}", f"with the options {opt} the run after set_parameters({full}) differs from the run of an optimizer built with them: {m}")
        # every option takes part: its values lead to different runs (a few seeds)
        k = sorted(table)[int(rng.integers(len(table)))]
        base = {"pc": 0.9, "pm": 0.5, "epoch": 4, "pop_size": 20, "selection": "tournament", "mutation_multipoints": k != "mutation", "mutation": "swap"}
        i, j = [int(x) for x in rng.permutation(len(table[k]))[:2]]
        for s in range(4):
            out = []
            for v in (table[k][i], table[k][j]):
                t = E.run_case(dict(c, epoch=4, pop_size=20, space=[{"kind": "float", "lb": [-10.0] * 8, "ub": [14.0] * 8}], seed=c["seed"] + s), model=cls(**{**base, k: v}), keep_pops=False, cpu_limit=20)
                out.append(Q.trace_digest(t))
            if Q.diff_digest(*out):
                r.n("effects")
                break
        else:
            r.v(f"no-effect:{a}:{k}", f"{k}={table[k][i]!r} and {k}={table[k][j]!r} give the very same run")

    def fits(self, cls, full):
        try:
            cls(**{k: v for k, v in full.items() if k in ("epoch", "pop_size")})
            return True
        except Exception:
            return False


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


CHECK = C18()
