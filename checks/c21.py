import io
import contextlib
import itertools
import math
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from mon import core, engine as E, gen, multi as M

FAST = [a for a in gen.ALGOS if a not in ("CMA_ES", "Simple_CMA_ES")]
MODES = ["single", "swarm", "thread", "single"]


def same(a, b, ext):
    """Equal as numbers, up to what the file format carries (json: ten decimals)."""
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if ext == "json":
        return abs(a - b) <= 1e-9 + 1e-9 * abs(b)
    return a == b or abs(a - b) <= 1e-15 * abs(b)


def same_list(a, b, ext):
    return len(a) == len(b) and all(same(x, y, ext) for x, y in zip(a, b))


def load(path, ext):
    if ext == "csv":
        return pd.read_csv(path, float_precision="round_trip")
    if ext == "json":
        return pd.read_json(path, precise_float=True)
    return pd.read_pickle(path)


class C21(core.Check):
    id = "C21"
    technique = "instrumented optimizers log every run in whichever process it happens; conservation oracle between the log and the exported files"
    rule = ("case = algorithms x problems (dictionary or object, direction, repeated names) x trials x jobs x termination and mode shapes x format; "
            "distinct by the shape of all of these")
    assumptions = ("when as many algorithms as problems are given, a list of that length may be read either way", "JSON carries ten decimals")
    wall_per_case = 300.0
    count = {"quick": 300, "thorough": 2200}
    floors = {"runs_logged": 1500, "files_checked": 300, "parallel_cases": 20}

    def cases(self, seed, tier):
        return [{"i": i, "seed": int(gen.rng_for(seed, "C21", i).integers(0, 2 ** 31))} for i in range(self.count[tier])]

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        d = tempfile.mkdtemp(prefix="mealpy-mon-multi-")
        try:
            with M.Log(os.path.join(d, "runs.log")) as log:
                self.one(rng, d, log, r, case["i"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        r.sample(f"case {case['i']}: {dict(r.stats)}")
        return r

    def one(self, rng, d, log, r, i):
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        trials = int(rng.integers(1, 5))
        dup_a, dup_p = n > 1 and rng.random() < 0.15, m > 1 and rng.random() < 0.15
        algos, specs = [], []
        for k in range(n):
            a = str(rng.choice(FAST))
            s = gen.SPEC[a]
            pop = int(rng.choice([p for p in (s["pops_ok"] or [20]) if p <= 30] or [20]))
            ep = int(rng.integers(3, 7))
            params = gen.random_params(rng, a, pop, "fit", ep)
            name = None if rng.random() < 0.3 else "twin" if dup_a and k < 2 else f"algo {k}"
            if dup_a and k < 2:
                name = "twin"
            elif name is None and any(t["a"] == a for t in specs):
                name = f"algo {k}"
            kw = dict(params, epoch=ep, **({"pop_size": pop} if "pop_size" in s["defaults"] else {}))
            try:
                algos.append(M.rec_class(a)(**kw, **({"name": name} if name else {})))
            except ValueError:
                a, ep = "OriginalDE", ep
                name = name or f"algo {k}"
                algos.append(M.rec_class(a)(epoch=ep, pop_size=pop, name=name))
            specs.append({"a": a, "name": algos[-1].get_name(), "epoch": ep})
        problems, pspecs = [], []
        for k in range(m):
            name = "same" if dup_p and k < 2 else f"problem {k}"
            mm = str(rng.choice(["min", "max"]))
            fn = M.Fn(k + 10 * i, sign=1.0 if mm == "min" else -1.0, objs=1 if rng.random() < 0.8 else 2)
            kw = dict(bounds=E.make_var(gen.float_space(rng, int(rng.integers(1, 4)))), minmax=mm, obj_func=fn, name=name, log_to=None)
            if fn.objs == 2:
                kw["obj_weights"] = [0.5, 1.0]
            problems.append(E.Problem(**kw) if rng.random() < 0.5 else kw)
            pspecs.append({"name": name, "fn": fn, "minmax": mm})
        u = rng.random()
        jobs = None if u < 0.5 else int(rng.choice([0, 1, -1])) if u < 0.7 else int(rng.choice([2, 3]))
        ext = str(rng.choice(["csv", "json", "dataframe"]))

        def shaped(make):
            """Random shape; returns the argument, the set of admissible (n x m) assignments."""
            w = str(rng.choice(["none", "one", "n", "m", "nm"]))
            seq = tuple if rng.random() < 0.5 else list
            if w == "none":
                return w, None, [[[None] * m] * n]
            size = {"one": 1, "n": n, "m": m, "nm": n * m}[w]
            vals = [make(q) for q in range(size)]
            ways = []
            if size == 1:
                ways.append([[vals[0]] * m for _ in range(n)])
            else:
                if size == n:
                    ways.append([[vals[q]] * m for q in range(n)])
                if size == m:
                    ways.append([list(vals) for _ in range(n)])
                if size == n * m:
                    ways.append([[vals[q * m + p] for p in range(m)] for q in range(n)])
            return w, seq(vals), ways

        def term(q):
            v = rng.random()
            t = {"max_epoch": int(1 + (q + int(rng.integers(0, 3))) % 6)} if v < 0.6 else {"max_fe": 40 + 13 * q} if v < 0.8 else {"max_early_stop": 2, "max_epoch": 5}
            return t

        tw, terms, tways = shaped(term)
        from mealpy import Termination
        targ = terms
        if terms is not None and rng.random() < 0.4:
            targ = type(terms)(Termination(**t) for t in terms)
        mw, modes, mways = shaped(lambda q: MODES[(q + int(rng.integers(0, 4))) % 4])
        parallel = jobs is not None and jobs >= 2
        nw = int(rng.integers(2, 4))
        conv = bool(rng.random() < 0.7)
        verbose = bool(rng.random() < 0.3)
        r.sig(n, m, trials, jobs, tw, mw, ext, conv, dup_a, dup_p)
        out = os.path.join(d, "out", "put")
        text = io.StringIO()
        extra = rng.random() < 0.1
        alist = algos + (["not an optimizer"] if extra else [])
        if extra and (terms is not None or modes is not None):
            alist, extra = algos, False
        what = f"{n} algorithms x {m} problems x {trials} trials, n_jobs={jobs}, terminations: {tw}, modes: {mw}, {ext}"
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
                mt = E.mealpy.Multitask(algorithms=tuple(alist) if rng.random() < 0.5 else list(alist), problems=problems, terminations=targ, modes=modes, n_workers=nw)
                mt.execute(n_trials=trials, n_jobs=jobs, save_path=out, save_as=ext, save_convergence=conv, verbose=verbose)
        except Exception as e:
            r.v(f"failed:{type(e).__name__}:{'jobs' if jobs == 1 else 'shape'}", f"{what}: {type(e).__name__}: {e}")
            return
        runs = log.read()
        r.n("runs_logged", len(runs))
        r.n("parallel_cases", parallel)
        # ---- which runs happened
        by = {}
        for u in runs:
            by.setdefault((u["algo"], u["problem"], u["ident"]), []).append(u)
        total = n * m * trials
        if len(runs) != total:
            r.v("run-count", f"{what}: {len(runs)} runs happened instead of {total}")
            return
        cells = {}
        for q in range(n):
            for p in range(m):
                key = (specs[q]["name"], pspecs[p]["name"], pspecs[p]["fn"].ident)
                want = trials * sum(1 for s in specs if s["name"] == specs[q]["name"])
                got = by.get(key, [])
                if len(got) != want:
                    r.v("run-count", f"{what}: {specs[q]['name']} ran {len(got)} times on {pspecs[p]['name']} instead of {want}")
                    return
                if want == trials:
                    cells[q, p] = got
                else:          # two algorithms of one name: told apart by their settings
                    mine = [u for u in got if u["params"] == {k: repr(v) for k, v in algos[q].get_parameters().items()}]
                    cells[q, p] = mine if len(mine) == trials else None
        if not parallel and any(u["pid"] != os.getpid() for u in runs):
            r.v("not-sequential", f"{what}: runs happened in other processes")
        if parallel and trials > 1 and not any(u["pid"] != os.getpid() for u in runs):
            r.v("not-parallel", f"{what}: no run happened in another process")

        def fits(way, field):
            for q in range(n):
                for p in range(m):
                    for u in cells[q, p] or []:
                        w = way[q][p]
                        if field == "termination":
                            g = u["termination"]
                            if (w is None) != (g is None) or (w and any(g.get(k) != v for k, v in w.items()) or w and any(v is not None and k not in w for k, v in g.items())):
                                return f"{specs[q]['name']} on {pspecs[p]['name']} ran under {g} instead of {w}"
                        else:
                            if u["mode"] != (w or "single"):
                                return f"{specs[q]['name']} on {pspecs[p]['name']} ran in mode {u['mode']} instead of {w or 'single'}"
            return None

        for field, ways, shape in (("termination", tways, tw), ("mode", mways, mw)):
            bad = [fits(w, field) for w in ways]
            if bad and all(bad):
                r.v(f"{field}:{shape}", f"{what}: {bad[0]}")
        way = next((w for w in tways if not fits(w, "termination")), None)
        for (q, p), us in cells.items():
            for u in us or []:
                r.n("runs_judged")
                t = way[q][p] if way else None
                lim = min([specs[q]["epoch"]] + ([t["max_epoch"]] if t and "max_epoch" in t else []))
                if t is None or list(t) == ["max_epoch"]:
                    k = t["max_epoch"] if t else specs[q]["epoch"]
                    if len(u["conv"]) not in (k, lim):
                        r.v("epochs", f"{what}: {specs[q]['name']} on {pspecs[p]['name']} under {t} made {len(u['conv'])} epochs instead of {k}")
                if u["mode"] in ("thread", "process") and u["n_workers"] != nw:
                    r.v("n_workers", f"{what}: n_workers={nw} arrived as {u['n_workers']}")
                f = pspecs[p]["fn"].value(np.array(u["x"]))
                f = f if not isinstance(f, list) else 0.5 * f[0] + 1.0 * f[1]
                if abs(f - u["best"]) > 1e-9 * max(1.0, abs(f)):
                    r.v("wrong-problem", f"{what}: the run of {specs[q]['name']} on {pspecs[p]['name']} reports {u['best']} where the problem's value is {f}")
            if us and len(us) > 1 and all(u["calls"] for u in us) and len({u["crc"] for u in us}) < len(us) and self.random(algos[q], problems[p], us[0], targ):
                r.v("same-run", f"{what}: two trials of {specs[q]['name']} on {pspecs[p]['name']} are the same run")
        # ---- the files
        files = sorted(os.path.relpath(os.path.join(w, f), out) for w, _, fs in os.walk(out) for f in fs)
        suffix = {"csv": "csv", "json": "json", "dataframe": "pkl"}[ext]
        best = [f for f in files if f.startswith("best_fit" + os.sep)]
        convs = [f for f in files if f.startswith("convergence" + os.sep)]
        if set(files) - set(best) - set(convs) or any(not f.endswith("." + suffix) for f in files):
            r.v("files", f"{what}: unexpected files {files}")
            return
        if len(best) != n or len(convs) != (n * m if conv else 0):
            r.v("files" + (":twins" if dup_a or dup_p else ""), f"{what}{' (equal names)' if dup_a or dup_p else ''}: {len(best)} tables of best fitness and {len(convs)} of convergence are written "
                f"instead of {n} and {n * m if conv else 0}: {files}")
            return
        if not dup_a and not dup_p:
            want = {os.path.join("best_fit", f"{s['name']}_best_fit.{suffix}") for s in specs}
            if conv:
                want |= {os.path.join("convergence", s["name"], f"{p['name']}_convergence.{suffix}") for s in specs for p in pspecs}
            if want != set(files):
                r.v("files", f"{what}: wrote {sorted(set(files) - want)} instead of {sorted(want - set(files))}")
                return
        tables = {f: load(os.path.join(out, f), ext) for f in files}
        r.n("files_checked", len(files))

        def matches(df, q):
            """The table lists the runs of algorithm q: one column per problem in order, one row per trial."""
            if df.shape != (trials, m):
                return f"the table has shape {df.shape} instead of {(trials, m)}"
            for p in range(m):
                if not dup_p and list(df.columns)[p] != pspecs[p]["name"]:
                    return f"columns {list(df.columns)}"
                us = cells[q, p]
                if us is None:
                    continue
                col = [float(v) for v in df.iloc[:, p]]
                ref = [u["best"] for u in us]
                if parallel:
                    col, ref = sorted(col), sorted(ref)
                if not same_list(col, ref, ext):
                    return f"problem {pspecs[p]['name']}: {col} where the runs found {ref}"
            return None

        for q in range(n):
            cand = [os.path.join("best_fit", f"{specs[q]['name']}_best_fit.{suffix}")] if not dup_a else best
            bad = [matches(tables[f], q) for f in cand]
            if all(bad):
                r.v("best-fit" + (":twins" if dup_a or dup_p else ""), f"{what}: best fitness of {specs[q]['name']}: {bad[0]}")
                return
            table = tables[cand[[k for k, b in enumerate(bad) if not b][0]]]
            for p in range(m if conv else 0):
                us = cells[q, p]
                if us is None:
                    continue
                cf = [os.path.join("convergence", specs[q]["name"], f"{pspecs[p]['name']}_convergence.{suffix}")] if not (dup_a or dup_p) else convs
                err = None
                for f in cf:
                    err = self.conv_ok(tables[f], us, [float(v) for v in table.iloc[:, p]], parallel, ext, trials)
                    if not err:
                        break
                if err:
                    r.v("convergence" + (":twins" if dup_a or dup_p else ""), f"{what}: convergence of {specs[q]['name']} on {pspecs[p]['name']}: {err}")
                    return
                r.n("convergence_checked")

    @staticmethod
    def random(algo, problem, u, targ):
        """Some optimizers place their population deterministically; then equal runs are no fault of the utility."""
        if u["ran_mode"] not in ("single", "swarm"):
            return False
        got = set()
        for seed in range(60):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                algo.solve(problem, mode=u["mode"], termination={k: v for k, v in u["termination"].items() if v is not None} if u["termination"] else None, seed=seed)
            got.add(M.Fn.crc)
        return len(got) == 60

    @staticmethod
    def conv_ok(df, us, bests, parallel, ext, trials):
        if list(df.columns) != [f"trial_{k + 1}" for k in range(trials)]:
            return f"columns {list(df.columns)}"
        cols = []
        for k in range(trials):
            c = [float(v) for v in df[f"trial_{k + 1}"]]
            while c and math.isnan(c[-1]):
                c.pop()
            cols.append(c)
        if len(df) != max(len(u["conv"]) for u in us):
            return f"{len(df)} rows where the longest run has {max(len(u['conv']) for u in us)} epochs"
        if not parallel:
            for k, (c, u) in enumerate(zip(cols, us)):
                if not same_list(c, u["conv"], ext):
                    return f"trial {k + 1}: {c} where the run recorded {u['conv']}"
            return None
        left = list(us)
        for k, c in enumerate(cols):
            hit = [u for u in left if same_list(c, u["conv"], ext) and same(bests[k], u["best"], ext)]
            if not hit:
                return f"trial {k + 1}: {c} (best {bests[k]}) is none of the runs {[(u['conv'], u['best']) for u in left]}"
            left.remove(hit[0])
        return None


CHECK = C21()
