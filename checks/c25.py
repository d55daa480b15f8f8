import ast
import contextlib
import glob
import importlib
import io
import os
import numpy as np
from mon import core, engine as E, gen
from mon.pair import quiet

SRC = os.path.join(os.environ.get("MEALPY_ROOT", "/repo"), "mealpy")


def source_classes():
    """{class name: [(package, module)]} of the optimizer classes defined in the *_based packages, by following base class names through the source."""
    defs, bases = {}, {}
    for f in sorted(glob.glob(os.path.join(SRC, "*_based", "*.py"))):
        if os.path.basename(f) == "__init__.py":
            continue
        pkg, mod = os.path.basename(os.path.dirname(f)), os.path.basename(f)[:-3]
        for n in ast.parse(open(f, encoding="utf-8").read()).body:
            if isinstance(n, ast.ClassDef):
                defs.setdefault(n.name, []).append((pkg, mod))
                bases[n.name] = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "" for b in n.bases]

    def opt(n, seen=()):
        return n == "Optimizer" or n in bases and n not in seen and any(opt(b, seen + (n,)) for b in bases[n])
    return {n: w for n, w in defs.items() if opt(n)}


def near(rng, n):
    k = int(rng.integers(0, 8))
    i = int(rng.integers(0, len(n)))
    return [n.lower(), n.upper(), n + " ", " " + n, n[:i] + n[i + 1:], n[:i] + "x" + n[i:], n + "\n", n[::-1]][k]


class C25(core.Check):
    id = "C25"
    technique = "monitor of the lookup functions and of default construction against the classes found in the source tree"
    rule = ("case = optimizer class: lookups by class name and module in random orders, verbose and not, near misses of the name, construction, name, textual description before and after parameter changes; "
            "plus whole-registry cases; distinct by class and kind of lookup")
    assumptions = ("a class of the library is a subclass of Optimizer at the top level of a module of a *_based package",)
    reps = {"quick": 6, "thorough": 60}
    floors = {"lookups": 5000, "unknown": 4000, "described": 3000, "classes": 280}

    def cases(self, seed, tier):
        self.defs = source_classes()
        names = sorted(self.defs)
        out = [{"part": "registry", "k": k} for k in range(2 if tier == "quick" else 8)]
        out += [{"part": "class", "algo": n, "reps": self.reps[tier]} for n in names]
        for i, c in enumerate(out):
            c["seed"] = int(gen.rng_for(seed, "C25", i).integers(0, 2 ** 31))
        return out

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        if not hasattr(self, "defs"):
            self.defs = source_classes()
        try:
            getattr(self, "p_" + case["part"])(case, rng, r)
        except Exception as e:
            import traceback
            r.v(f"crash:{case.get('algo', 'registry')}", f"{type(e).__name__}: {e} {traceback.format_exc()[-700:]}")
        r.sample(f"{case}: {dict(r.stats)}")
        return r

    def p_registry(self, case, rng, r):
        import mealpy
        with quiet():
            reg = mealpy.get_all_optimizers(verbose=False)
        defs = self.defs
        r.n("classes", len(reg))
        for n in sorted(set(defs) - set(reg)):
            r.v(f"missing:{n}", f"{n} is defined in {defs[n]} but the registry does not list it")
        for n in sorted(set(reg) - set(defs)):
            r.v(f"extra:{n}", f"the registry lists {n}, which is no optimizer class of the library")
        for n, w in defs.items():
            if len(w) > 1:
                r.v(f"duplicate:{n}", f"{n} is defined in several modules {w}: only one of them can be looked up")
        for n, c in reg.items():
            r.sig("registry", n)
            if not isinstance(c, type) or c.__name__ != n:
                r.v(f"wrong-class:{n}", f"the registry maps {n} to {c}")
        if len(set(map(id, reg.values()))) != len(reg):
            r.v("registry-twice", "a class is listed under two names")
        # verbose listing names them all, and gives the same answer
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            reg2 = mealpy.get_all_optimizers() if case["k"] % 2 else mealpy.get_all_optimizers(verbose=True)
        if reg2 != reg:
            r.v("registry-verbose", "the verbose registry differs from the silent one")
        lines = buf.getvalue().splitlines()
        for n in reg:
            hit = [x for x in lines if f"Optimizer: {n} - " in x]
            if len(hit) != 1 or f"{n}(" not in hit[0]:
                r.v(f"registry-listing:{n}", f"the verbose listing names {n} {len(hit)} times")
        # what a caller does with the answer changes no later lookup
        reg2.clear()
        reg2["OriginalPSO"] = int
        with quiet():
            if mealpy.get_all_optimizers(verbose=False) != reg:
                r.v("registry-shared", "changing a returned registry changes the next one")

        class Mine(mealpy.Optimizer):
            pass

        class OriginalPSO(reg.get("OriginalPSO", mealpy.Optimizer)):
            pass
        with quiet():
            if mealpy.get_all_optimizers(verbose=False) != reg:
                r.v("registry-user-class", "a class defined by a user changes the registry")
            for n in ("Optimizer", "Mine", "object", "", "__builtins__", "sys", "PSO", "swarm_based", "Problem", "Tuner", "get_all_optimizers", "Agent"):
                r.n("unknown")
                if mealpy.get_optimizer_by_class(n) is not None:
                    r.v("unknown-class", f"get_optimizer_by_class({n!r}) = {mealpy.get_optimizer_by_class(n)}")
            for n in ("Optimizer", "OriginalPSO", "", "__builtins__", "sys", "inspect", "nope", "pso", "tuner ", "P SO"):
                r.n("unknown")
                for v in (False, True):
                    x = mealpy.get_optimizer_by_name(n, verbose=v)
                    if x:
                        r.v("unknown-module", f"get_optimizer_by_name({n!r}) = {x}")

    def p_class(self, case, rng, r):
        import mealpy
        n = case["algo"]
        pkg, mod = self.defs[n][0]
        m = importlib.import_module(f"mealpy.{pkg}.{mod}")
        want = getattr(m, n)
        with quiet():
            for v in (False, True):
                for _ in range(max(1, case["reps"] // 2) if not v else 1):
                    got = mealpy.get_optimizer_by_class(n, verbose=v)
                    r.n("lookups")
                    if got is not want:
                        r.v(f"lookup:{n}", f"get_optimizer_by_class({n!r}, verbose={v}) is {got}, the class is {want}")
            by = mealpy.get_optimizer_by_name(mod)
            r.n("lookups")
            own = {k for k, w in self.defs.items() if (pkg, mod) in w}
            if not by or by.get(n) is not want:
                r.v(f"lookup-module:{n}", f"get_optimizer_by_name({mod!r}) gives {by} without {want}")
            elif not own <= set(by) or any(not isinstance(c, type) or k != c.__name__ for k, c in by.items()):
                r.v(f"lookup-module:{n}", f"get_optimizer_by_name({mod!r}) gives {by}, the module defines {own}")
            if getattr(getattr(mealpy, mod, None), n, None) is not want:
                r.v(f"lookup-import:{n}", f"mealpy.{mod}.{n} is not {want}")
            for _ in range(case["reps"] * 3):
                bad = near(rng, n)
                if bad in self.defs:
                    continue
                r.n("unknown")
                r.sig(n, "near", bad == n.lower(), len(bad) - len(n))
                v = bool(rng.random() < 0.02)
                if mealpy.get_optimizer_by_class(bad, verbose=v) is not None:
                    r.v(f"near:{n}", f"get_optimizer_by_class({bad!r}) gives {mealpy.get_optimizer_by_class(bad)}")
                got = mealpy.get_optimizer_by_class(n)
                r.n("lookups")
                if got is not want:
                    r.v(f"lookup:{n}", f"after an unknown name get_optimizer_by_class({n!r}) is {got}")
        # construction, name, description
        a = want()
        if a.get_name() != n or a.name != n:
            r.v(f"name:{n}", f"a default optimizer reports the name {a.get_name()!r}")
        own_name = f"run {case['seed']}"
        if want(name=own_name).get_name() != own_name:
            r.v(f"name:{n}", f"an optimizer named {own_name!r} reports {want(name=own_name).get_name()!r}")
        if want().get_name() != n:
            r.v(f"name:{n}", "naming one optimizer renames the next one")
        for _ in range(case["reps"]):
            self.described(n, a, r)
            pop = int(rng.choice(gen.SPEC[n]["pops_ok"] or [20])) if n in gen.SPEC else 20
            if n not in gen.SPEC:
                break
            p = gen.random_params(rng, n, pop, "fit", 5)
            before = str(want())
            try:
                a.set_parameters({k: v for k, v in p.items() if k in a.get_parameters()})
            except ValueError:
                r.n("joint_refused")
            self.described(n, a, r)
            if str(want()) != before:
                r.v(f"described-shared:{n}", "setting parameters of one optimizer changes the description of a fresh one")
        info = getattr(want, "OPT_INFO", None)
        from mealpy.utils.opt_info import OptInfo
        if info is None:            # not every class carries it
            r.n("no_info")
        elif not isinstance(info, OptInfo):
            r.v(f"info:{n}", f"{n} carries no classification information: {info!r}")
        else:
            r.n("infos")
            try:
                info.year = 1900
                r.v(f"info:{n}", "the classification information can be changed")
            except AttributeError:
                pass
        r.sig(n, pkg, mod)

    def described(self, n, a, r):
        s = str(a)
        r.n("described")
        p = a.get_parameters()
        if not s.startswith(f"{n}(") or not s.endswith(")"):
            r.v(f"described:{n}", f"{s!r} does not describe an optimizer of class {n}")
            return
        body = s[len(n) + 1:-1]
        for k, v in p.items():
            if f"{k}={v}" not in body:
                r.v(f"described:{n}", f"{s!r} does not tell {k}={v}")
                return
        want = ", ".join(f"{k}={v}" for k, v in p.items())
        if sorted(body.split(", ")) != sorted(want.split(", ")):
            r.v(f"described:{n}", f"{s!r} tells something else than the parameters {p}")


CHECK = C25()
