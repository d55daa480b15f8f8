import contextlib
import io
import json
import math
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from mon import core, engine as E, gen, charts, multi as M

FAST = [a for a in gen.ALGOS if a not in ("CMA_ES", "Simple_CMA_ES")]


def expand(grid):
    """Reference enumeration: the last parameter varies fastest."""
    out = []
    for g in ([grid] if isinstance(grid, dict) else grid):
        rows = [{}]
        for k, vs in g.items():
            rows = [dict(row, **{k: v}) for row in rows for v in vs]
        out += rows
    return out


def eq(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def same_list(a, b):
    return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))


class C22(core.Check):
    id = "C22"
    technique = "reference enumeration for the grid; instrumented optimizers log every run; conservation and ranking oracle between log, tables, selection, resolve, files and charts"
    rule = ("case = optimizer x grid (1-4 parameters, one grid or several) x trials x jobs x mode x termination x direction x problem form; distinct by these shapes; "
            "plus grids of the enumeration alone")
    assumptions = ("grid values can be written into a table", "JSON carries ten decimals")
    wall_per_case = 400.0
    count = {"quick": 170, "thorough": 2200}
    floors = {"runs_logged": 1000, "grids_checked": 1000, "parallel_cases": 15, "resolved": 100, "figures": 100}

    def cases(self, seed, tier):
        return [{"i": i, "seed": int(gen.rng_for(seed, "C22", i).integers(0, 2 ** 31)), "figs": i % 5 == 0} for i in range(self.count[tier])]

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        for _ in range(12):
            self.grid(rng, r)
        d = tempfile.mkdtemp(prefix="mealpy-mon-tune-")
        cwd = os.getcwd()
        try:
            os.chdir(d)
            with M.Log(os.path.join(d, "runs.log")) as log:
                self.tune(rng, d, log, r, case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        r.sample(f"case {case['i']}: {dict(r.stats)}")
        return r

    # ------------------------------------------------------------ enumeration
    def grid(self, rng, r):
        from mealpy.tuner import ParameterGrid
        pool = [0.1, 2, "abc", None, True, (1, 2), -3.5, "b", 7, 1e9, False, 0]

        def one():
            g = {}
            for k in range(int(rng.integers(0, 5))):
                n = int(rng.integers(1, 5))
                vs = [pool[q] for q in rng.permutation(len(pool))[:n]]
                if rng.random() < 0.2:
                    vs = np.array(rng.integers(-5, 5, n))
                elif rng.random() < 0.2:
                    vs = tuple(vs)
                elif rng.random() < 0.1:
                    vs = range(n)
                g[str(rng.choice(list("zyxabc"))) + str(k)] = vs
            return g
        grid = one() if rng.random() < 0.5 else [one() for _ in range(int(rng.integers(1, 4)))]
        if isinstance(grid, list) and rng.random() < 0.3:
            grid = tuple(grid)
        want = expand(grid)
        what = f"grid {grid!r}"[:300]
        try:
            pg = ParameterGrid(grid)
            got, again, size = list(pg), list(pg), len(pg)
        except Exception as e:
            r.v("grid-failed", f"{what}: {type(e).__name__}: {e}")
            return
        r.n("grids_checked")
        r.sig("grid", isinstance(grid, dict), len(want))
        if got != want:
            if sorted(map(repr, got)) == sorted(map(repr, want)):
                r.v("grid-order", f"{what}: combinations come as {got[:6]} instead of {want[:6]}")
            else:
                r.v("grid-enumeration", f"{what}: {len(got)} combinations {got[:6]}, expected {len(want)}: {want[:6]}")
            return
        if again != got:
            r.v("grid-iteration", f"{what}: iterating again gives something else")
        if size != len(want):
            r.v("grid-length", f"{what}: len is {size}, but it yields {len(want)} combinations")
        for k in ([int(v) for v in rng.integers(0, len(want), 5)] + [0, len(want) - 1]):
            try:
                x = pg[k]
            except Exception as e:
                r.v("grid-index", f"{what}: index {k} of {len(want)}: {type(e).__name__}: {e}")
                return
            if x != want[k]:
                r.v("grid-index", f"{what}: index {k} gives {x}, iteration gives {want[k]}")
                return
            if list(x) != list(want[k]):
                r.v("grid-index", f"{what}: index {k} gives the parameters in another order: {list(x)}")
        for k in (len(want), len(want) + 3):
            try:
                x = pg[k]
                r.v("grid-beyond", f"{what}: index {k} beyond the end gives {x}")
            except IndexError:
                r.n("beyond_refused")
        for bad, err in (({"a": 3}, TypeError), ({"a": "xyz"}, TypeError), ({"a": []}, ValueError), ({"a": np.zeros((2, 2))}, ValueError), (5, TypeError), ([3], TypeError),
                         ([{"a": [1]}, {"b": 2}], TypeError)):
            try:
                ParameterGrid(bad)
                r.v("grid-accepts", f"the grid {bad!r} is accepted")
            except (TypeError, ValueError):
                r.n("bad_grids_refused")

    # ------------------------------------------------------------ tuning
    def make_grid(self, rng, a, pop, ep):
        s = gen.SPEC[a]
        names = [k for k in gen.random_params(rng, a, pop, "fit", ep)]
        names = [k for k in s["checks"] if k in s["defaults"] and k not in s["pop_dep"] and k not in s["ep_dep"]]
        names = [k for k in names if k != "pop_size" or s["pops_ok"]]
        names = ["epoch"] * (not s["ep_dep"]) + [k for k in names if k != "epoch"]
        if not names:
            return None
        k = int(rng.integers(1, min(4, len(names)) + 1))
        pick = [names[q] for q in rng.permutation(len(names))[:k]]

        def values(name, n):
            if name == "epoch":
                return [int(v) for v in rng.permutation([2, 3, 4, 5, 6])[:n]]
            if name == "pop_size":
                return [int(v) for v in rng.permutation([p for p in s["pops_ok"] if p <= 34])[:n]]
            out = [s["defaults"][name]] if rng.random() < 0.5 else []
            for _ in range(n * 3):
                v = gen.sample_param(rng, s["checks"][name], s["defaults"][name])
                if v not in out:
                    out.append(v)
            return out[:n]

        def one(pick):
            g = {k: values(k, int(rng.integers(1, 4))) for k in pick}
            g = {k: v for k, v in g.items() if v}
            return {k: (tuple(v) if rng.random() < 0.2 else v) for k, v in g.items()}

        if rng.random() < 0.25:
            gs = [one([p for p in pick if rng.random() < 0.7]) for _ in range(int(rng.integers(1, 4)))]
            if any(gs):
                return gs if rng.random() < 0.6 else tuple(gs)
        return one(pick) or None

    def tune(self, rng, d, log, r, case):
        for _ in range(20):
            a = str(rng.choice(FAST))
            s = gen.SPEC[a]
            pop = int(rng.choice([p for p in (s["pops_ok"] or [20]) if p <= 30] or [20]))
            ep = 5
            params = gen.random_params(rng, a, pop, "fit", ep)
            grid = self.make_grid(rng, a, pop, ep)
            if grid is None or len(expand(grid)) > 24:
                continue
            base = dict(params, epoch=ep, **({"pop_size": pop} if "pop_size" in s["defaults"] else {}))
            combos = expand(grid)
            try:                                   # every combination must be constructible on its own
                fresh = [E.ALL[a](**{**base, **c}) for c in combos]
                break
            except ValueError:
                continue
        else:
            r.skip = "no admissible grid found"
            return
        want_params = [{k: repr(v) for k, v in f.get_parameters().items()} for f in fresh]
        want_held = [{k: repr(getattr(f, k, None)) for k in f.get_parameters()} for f in fresh]
        model = M.rec_class(a)(**base)
        minmax = str(rng.choice(["min", "max"]))
        flat = rng.random() < 0.15
        fn = M.Fn(case["i"], sign=1.0 if minmax == "min" else -1.0) if not flat else Steps()
        kw = dict(bounds=E.make_var(gen.float_space(rng, int(rng.integers(1, 4)))), minmax=minmax, obj_func=fn, name="tuned", log_to=None)
        if minmax == "min" and rng.random() < 0.3:
            del kw["minmax"]
        form = str(rng.choice(["dict", "Problem"]))
        problem = E.Problem(**kw) if form == "Problem" else kw
        trials = int(rng.integers(1, 5))
        u = rng.random()
        cpus = os.cpu_count() or 1
        jobs = None if u < 0.55 else int(rng.choice([0, 1, -2])) if u < 0.7 else int(rng.choice([2, 3]))
        if jobs and jobs >= cpus:
            jobs = None
        mode = str(rng.choice(["single", "swarm", "single", "thread"]))
        term = None if rng.random() < 0.5 else {"max_epoch": int(rng.integers(2, 5))} if rng.random() < 0.6 else {"max_fe": 90}
        targ = term
        if term and rng.random() < 0.3:
            targ = E.mealpy.Termination(**term)
        parallel = jobs is not None and jobs >= 2
        verbose = bool(rng.random() < 0.3)
        what = f"{a}, grid {grid}, {trials} trials, n_jobs={jobs}, {mode}, {minmax}, {form}"[:400]
        r.sig(a, len(combos), trials, jobs, mode, minmax, form, bool(term), isinstance(grid, dict))
        text = io.StringIO()
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            try:
                t = E.mealpy.Tuner(model, grid)
                t.execute(problem=problem, termination=targ, n_trials=trials, n_jobs=jobs, mode=mode, n_workers=2, verbose=verbose)
            except Exception as e:
                r.v(f"failed:{type(e).__name__}:{'one' if jobs == 1 else 'list' if not isinstance(grid, dict) else 'other'}", f"{what}: {type(e).__name__}: {e}")
                return
        runs = log.read()
        r.n("runs_logged", len(runs))
        r.n("parallel_cases", parallel)
        # ---- the runs that happened
        if len(runs) != len(combos) * trials:
            r.v("run-count", f"{what}: {len(runs)} runs happened instead of {len(combos)} combinations x {trials} trials")
            return
        if parallel:
            if trials > 1 and all(u["pid"] == os.getpid() for u in runs):
                r.v("not-parallel", f"{what}: no run happened in another process")
        elif any(u["pid"] != os.getpid() for u in runs):
            r.v("not-sequential", f"{what}: runs happened in other processes")
        groups = [runs[k * trials:(k + 1) * trials] for k in range(len(combos))]
        for g, p, h, c in zip(groups, want_params, want_held, combos):
            for n_run, u in enumerate(g):
                # attributes may serve as state during a run, so they are judged right after the parameters are set
                if u["params"] != p or (u["held"] != h and n_run == 0 and not parallel):
                    x = {k: (u["params"].get(k), u["held"].get(k), h[k]) for k in p if u["params"].get(k) != p[k] or u["held"].get(k) != h[k]}
                    r.v("params-not-in-effect" + ("" if isinstance(grid, dict) else ":list"), f"{what}: the run for {c} had (reported, held, expected): {x}")
                    return
                if u["mode"] != mode or (mode == "thread" and u["n_workers"] != 2):
                    r.v("mode", f"{what}: a run happened in mode {u['mode']} with {u['n_workers']} workers")
                if (u["termination"] is None) != (term is None) or (term and any(u["termination"].get(k) != v for k, v in term.items())):
                    r.v("termination", f"{what}: a run happened under {u['termination']} instead of {term}")
                if abs(fn.value(np.array(u["x"])) - u["best"]) > 1e-9 * max(1.0, abs(u["best"])) or u["minmax"] != minmax:
                    r.v("wrong-problem", f"{what}: a run's best {u['best']} is not the value of its solution under this problem ({u['minmax']})")
            if len(g) > 1 and all(u["calls"] for u in g) and mode in ("single", "swarm") and len({u["crc"] for u in g}) < len(g) and self.random(E.ALL[a], base, c, kw, mode):
                r.v("same-run", f"{what}: two trials for {c} are the same run")
        # ---- tables
        df = t.df_fit
        cols = [f"trial_{k + 1}" for k in range(trials)]
        if len(df) != len(combos) or any(c not in df.columns for c in cols + ["params", "trial_mean", "trial_std"]):
            r.v("table-shape", f"{what}: the table has {len(df)} rows and columns {list(df.columns)}")
            return
        for k, c in enumerate(combos):
            row = df.iloc[k]
            if dict(row["params"]) != c:
                r.v("table-params", f"{what}: row {k} says {row['params']} instead of {c}")
                return
            got, ref = [float(row[x]) for x in cols], [u["best"] for u in groups[k]]
            if parallel:
                got, ref = sorted(got), sorted(ref)
            if not same_list(got, ref):
                r.v("table-values", f"{what}: {c}: the table has {got}, the runs found {ref}")
                return
            if not eq(row["trial_mean"], float(np.mean(got))):
                r.v("table-mean", f"{what}: {c}: mean {row['trial_mean']} of {got}")
            sd = [float(np.std(got, ddof=q)) if trials > q else float("nan") for q in (0, 1)]
            if trials > 1 and not any(abs(row["trial_std"] - x) <= 1e-9 * max(1e-9, abs(x), abs(np.mean(got))) for x in sd):
                r.v("table-std", f"{what}: {c}: standard deviation {row['trial_std']} of {got}")
        r.n("rows_checked", len(df))
        loss = t.df_loss
        if len(loss) != len(runs):
            r.v("loss-shape", f"{what}: {len(loss)} convergence rows for {len(runs)} runs")
            return
        longest = max(len(u["conv"]) for u in runs)
        epochs = [c for c in loss.columns if not isinstance(c, str)]
        if sorted(int(c) for c in epochs) != list(range(1, longest + 1)):
            r.v("loss-shape", f"{what}: convergence columns {epochs} for runs of up to {longest} epochs")
            return
        for k, c in enumerate(combos):
            rows = loss.iloc[k * trials:(k + 1) * trials]
            seqs = []
            for q in range(trials):
                x = [float(rows.iloc[q][e]) for e in sorted(epochs)]
                while x and math.isnan(x[-1]):
                    x.pop()
                seqs.append(x)
                if any(not cell_is(rows.iloc[q][p], v) for p, v in c.items()) or int(rows.iloc[q]["trial"]) not in (q, q + 1):
                    r.v("loss-labels", f"{what}: convergence row {k * trials + q} is labelled {rows.iloc[q].to_dict()} instead of {c}, trial {q}")
                    return
            left = [u["conv"] for u in groups[k]]
            if parallel:
                seqs, left = sorted(seqs), sorted(left)
            if len(seqs) != len(left) or not all(same_list(x, y) for x, y in zip(seqs, left)):
                r.v("loss-values", f"{what}: {c}: convergence rows {seqs}, the runs recorded {left}")
                return
        # ---- selection
        means = [float(v) for v in df["trial_mean"]]
        stds = [float(np.std([float(df.iloc[k][x]) for x in cols])) for k in range(len(df))]
        best = min(means) if minmax == "min" else max(means)
        tied = [k for k in range(len(df)) if means[k] == best]
        low = min(stds[k] for k in tied)
        good = [k for k in tied if stds[k] <= low + 1e-12 * max(1.0, abs(low))]
        if len(tied) > 1:
            r.n("ties_seen")
        if t.best_score != best:
            r.v(f"selection:{minmax}", f"{what}: best score {t.best_score} selected where the means are {means}")
            return
        if not any(dict(t.best_params) == combos[k] for k in good):
            r.v(f"selection:{minmax}:{'tie' if any(dict(t.best_params) == combos[k] for k in tied) else 'params'}",
                f"{what}: parameters {t.best_params} selected; means {means}, spreads {stds}")
            return
        sel = [k for k in good if combos[k] == dict(t.best_params)]
        br = t.best_row
        if isinstance(br, pd.DataFrame):
            br = br.iloc[0]
        if dict(br["params"]) != dict(t.best_params) or float(br["trial_mean"]) != best:
            r.v("best-row", f"{what}: the best row is {br.to_dict()}, best parameters {t.best_params}")
        ba = t.best_algorithm
        if not isinstance(ba, E.ALL[a]) or not any({k: repr(v) for k, v in ba.get_parameters().items()} == want_params[k] for k in sel):
            r.v("best-algorithm", f"{what}: the best algorithm has {ba.get_parameters()}")
        # ---- resolve
        seed_start = None
        if rng.random() < 0.3 and a not in ("OriginalTSA",):
            pass
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            model.set_parameters({"epoch": 7}) if rng.random() < 0.3 and not s["ep_dep"] and "epoch" in expand(grid)[sel[0]] else None
            try:
                g = t.resolve(mode="swarm", termination={"max_epoch": 2}, starting_solutions=seed_start)
            except Exception as e:
                r.v("resolve-failed", f"{what}: resolve: {type(e).__name__}: {e}")
                return
        res = log.read()
        r.n("resolved")
        if len(res) != 1:
            r.v("resolve-runs", f"{what}: resolving made {len(res)} runs")
            return
        u = res[0]
        if not any(u["params"] == want_params[k] and u["held"] == want_held[k] for k in sel):
            r.v("resolve-params", f"{what}: resolving ran with {u['params']}, selected {t.best_params}")
        if u["mode"] != "swarm" or u["termination"] is None or u["termination"].get("max_epoch") != 2 or len(u["conv"]) > 2:
            r.v("resolve-options", f"{what}: resolving ran in mode {u['mode']} under {u['termination']}")
        if float(g.target.fitness) != u["best"] or abs(fn.value(np.array(u["x"])) - u["best"]) > 1e-9 * max(1.0, abs(u["best"])) or u["minmax"] != minmax:
            r.v("resolve-result", f"{what}: resolve returned {g.target.fitness}, its run found {u['best']} on a {u['minmax']} problem")
        self.exports(rng, t, df, loss, d, r, what, combos, case["figs"])

    def exports(self, rng, t, df, loss, d, r, what, combos, figs):
        out = os.path.join(d, "exp", "orted")
        for name, file in (("tab.csv", "tab.csv"), ("fit.json", "fit.json"), ("x.y.csv", "x-y.csv"), ("frame.dataframe", "frame.pkl")):
            t.export_results(save_path=out, file_name=name)
            p = os.path.join(out, file)
            if not os.path.exists(p):
                r.v("export-file", f"{what}: export {name} wrote {os.listdir(out)}")
                return
            back = pd.read_csv(p, float_precision="round_trip") if file.endswith("csv") else pd.read_json(p, precise_float=True) if file.endswith("json") else pd.read_pickle(p)
            if len(back) != len(df) or list(back.columns) != list(df.columns):
                r.v("export-shape", f"{what}: exported {name} has {len(back)} rows and columns {list(back.columns)}")
                return
            tol = 1e-9 if file.endswith("json") else 0.0
            for c in df.columns:
                if c in ("params", "rank_mean_std"):
                    continue
                for x, y in zip(back[c], df[c]):
                    x = float("nan") if x is None else float(x)
                    if not (eq(x, y) or abs(x - float(y)) <= tol * max(1.0, abs(float(y)))):
                        r.v("export-values", f"{what}: exported {name}, column {c}: {x} instead of {y}")
                        return
            r.n("exports_checked")
        if not figs:
            return
        try:
            with charts.watch(render=False) as seen:
                t.export_figures(save_path=os.path.join(out, "figs"), file_name="loss.csv", exts=(".png",))
        except Exception as e:
            r.v(f"figures-failed:{type(e).__name__}:{'one' if len(combos[0]) == 1 else 'more'}", f"{what}: {type(e).__name__}: {e}")
            return
        back = pd.read_csv(os.path.join(out, "figs", "loss.csv"), float_precision="round_trip")
        if back.shape != loss.shape:
            r.v("export-shape", f"{what}: the convergence table of shape {loss.shape} is exported with shape {back.shape}")
        epochs = sorted(c for c in loss.columns if not isinstance(c, str))
        per_trial = {}
        paths = [f.path for f in seen]
        if len(set(paths)) != len(paths):
            r.v("figures-overwritten", f"{what}: several charts go to one file: {sorted(p for p in paths if paths.count(p) > 1)[:4]}")
        for f in seen:
            trial = os.path.basename(os.path.dirname(f.path))
            r.n("figures")
            lines = [l for a in f.axes for l in a["lines"]]
            legend = [x for a in f.axes for x in (a["legend"] or [])]
            rows = loss[loss["trial"].map(lambda v: f"trial{v}") == trial]
            have = [[float(row[e]) for e in epochs] for _, row in rows.iterrows()]
            if len(legend) != len(lines):
                r.v("figures-legend", f"{what}: {len(lines)} curves and legend {legend}")
            for (x, y), lab in zip(lines, legend):
                hit = [k for k, h in enumerate(have) if len(h) == len(y) and all(eq(p, q) for p, q in zip(h, y))]
                if not hit:
                    r.v("figures-data", f"{what}: {f.path}: the curve {list(y)} is no convergence row of {trial}")
                    return
                name, _, val = lab.partition(" = ")
                if not any(str(rows.iloc[k][name]) == val or eq_text(rows.iloc[k][name], val) for k in hit if name in rows.columns):
                    r.v("figures-label", f"{what}: {f.path}: a curve labelled {lab!r} belongs to {[rows.iloc[k].to_dict() for k in hit][:2]}")
                    return
                per_trial.setdefault((trial, name), set()).update(hit)
        # every value of every parameter with a choice appears
        if isinstance(t.param_grid, dict):
            for name, vs in t.param_grid.items():
                for q in sorted(set(loss["trial"])):
                    n = len(per_trial.get((f"trial{q}", name), ()))
                    if len(vs) > 1 and len(set(map(str, vs))) == len(vs) and n < len(combos):
                        r.v("figures-missing", f"{what}: only {n} of {len(combos)} combinations are drawn in the charts of {name}")
                        return

    @staticmethod
    def random(cls, base, c, kw, mode):
        got = set()
        for seed in range(60):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                M.Fn.crc = 0
                cls(**{**base, **c}).solve(dict(kw), mode=mode, seed=seed)
            got.add(M.Fn.crc)
        return len(got) == 60


class Steps(M.Fn):
    """Few distinct values, so that means tie."""

    def __init__(self):
        super().__init__(0)

    def value(self, x):
        return float(np.sign(np.sum(np.asarray(x, dtype=float))))

    def __call__(self, x):
        M.Fn.calls += 1
        return self.value(x)


def cell_is(x, v):
    return x == v or eq_text(x, v)


def eq_text(x, v):
    try:
        return eq(x, v)
    except (TypeError, ValueError):
        return str(x) == str(v)


CHECK = C22()
