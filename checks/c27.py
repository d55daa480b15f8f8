import contextlib
import copy
import io
import os
import shutil
import tempfile
import numpy as np
from mon import core, engine as E, gen, charts

RECORDED = ("list_global_best_fit", "list_current_best_fit", "list_epoch_time", "list_diversity", "list_exploration", "list_exploitation")
AGENTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")


def snapshot(h):
    s = {k: [float(v) for v in getattr(h, k)] for k in RECORDED}
    for k in AGENTS:
        s[k] = [(np.array(a.solution, float).tolist(), float(a.target.fitness), np.array(a.target.objectives, float).tolist()) for a in getattr(h, k)]
    s["pops"] = [[np.array(a.solution, float).tolist() for a in p] for p in h.list_population]
    return s


def ramp(x):
    return len(x) == 0 or (abs(x[0] - round(x[0])) == 0 and x[0] in (0.0, 1.0) and np.array_equal(np.diff(x), np.ones(len(x) - 1)))


class C27(core.Check):
    id = "C27"
    technique = "monitor on matplotlib figures at the moment they are written: drawn data against the recorded history, written paths, history snapshots"
    rule = ("case = optimizer run (epochs, space, 1-14 objectives, saved populations or not), then every chart with random options, chosen agents and dimensions, and impossible requests; "
            "distinct by optimizer, epochs, objectives, dimensions and options")
    assumptions = ("file names use ordinary characters",)
    wall_per_case = 300.0
    reps = {"quick": 1, "thorough": 16}
    floors = {"figures": 2500, "points": 10000, "trajectories": 350, "refused": 500}

    def cases(self, seed, tier):
        return [{"algo": a, "reps": self.reps[tier], "render": i % 9 == seed % 9, "seed": int(gen.rng_for(seed, "C27", a).integers(0, 2 ** 31))} for i, a in enumerate(gen.ALGOS)]

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        cwd = os.getcwd()
        d = tempfile.mkdtemp(prefix="mealpy-mon-chart-")
        try:
            os.chdir(d)
            for k in range(case["reps"]):
                self.one(case["algo"], rng, d, r, case["render"] and k == 0)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        r.sample(f"{case['algo']}: {dict(r.stats)}")
        return r

    def one(self, a, rng, top, r, render):
        s = gen.SPEC[a]
        pop = int(rng.choice([p for p in (s["pops_ok"] or [20]) if p <= 30] or [20]))
        ep = int(rng.choice([1, 2, 3, 6, 11])) if not s["ep_dep"] else 6
        params = gen.random_params(rng, a, pop, "fit", ep)
        case = {"algo": a, "pop_size": pop if "pop_size" in s["defaults"] else None, "epoch": ep, "params": params, "space": gen.mixed_space(rng) if rng.random() < 0.3 else [gen.float_space(rng)],
                "minmax": str(rng.choice(["min", "max"])), "save_population": bool(rng.random() < 0.75), "obj": "sphere", "seed": int(rng.integers(0, 10 ** 6))}
        n_obj = int(rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 11]))
        if n_obj > 1:
            case["weights"] = [round(0.5 + 0.1 * k, 3) for k in range(n_obj)]
            obj = Many(n_obj)
        else:
            obj = Many(1)
        model = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                model = E.build_model(case)
                model.solve(E.build_problem(case, obj), seed=case["seed"])
        except ValueError:
            r.n("refused_setup")
            return
        h = model.history
        before = snapshot(h)
        self.model, self.h, self.r, self.a, self.rng, self.top = model, h, r, a, rng, top
        self.render = render
        r.sig(a, ep, n_obj, len(case["space"]), case["save_population"])
        n_dims = model.problem.n_dims
        fits = {"global best": h.list_global_best_fit, "local best": h.list_current_best_fit}
        for nm, f, data in (("global best fitness", h.save_global_best_fitness_chart, before["list_global_best_fit"]),
                            ("local best fitness", h.save_local_best_fitness_chart, before["list_current_best_fit"]),
                            ("runtime", h.save_runtime_chart, before["list_epoch_time"])):
            kw = {}
            if rng.random() < 0.5:
                kw.update(legend=str(rng.choice(["my run", "A"])))
            if rng.random() < 0.4:
                kw.update(x_label="generation", y_label="value", title="My title")
            if rng.random() < 0.4:
                kw.update(linestyle=str(rng.choice(["--", ":"])), color=str(rng.choice(["r", "green"])))
            if rng.random() < 0.5:
                kw.update(exts=[(".png",), (".pdf", ".svg"), [".jpg"]][int(rng.integers(0, 3))] if not render else (".png", ".pdf"))
            fig = self.draw(nm, f, kw)
            if fig:
                self.lines(nm, fig, [data], ramped=True)
                ax = fig.axes[0]
                if "legend" in kw and (ax["legend"] or []) != [kw["legend"]]:
                    r.v(f"legend:{nm}", f"{a}: the {nm} chart asked for legend {kw['legend']!r} shows {ax['legend']}")
                for k, got in (("x_label", ax["x"]), ("y_label", ax["y"]), ("title", fig.title)):
                    if k in kw and got != kw[k]:
                        r.v(f"text:{nm}", f"{a}: the {nm} chart asked for {k} {kw[k]!r} shows {got!r}")
        fig = self.draw("exploration and exploitation", h.save_exploration_exploitation_chart, {})
        if fig:
            self.lines("exploration and exploitation", fig, [before["list_exploration"], before["list_exploitation"]], ramped=True)
            ax = fig.axes[0]
            lab = [str(x).lower() for x in (ax["legend"] or ax["labels"])]
            if len(lab) != 2 or "explor" not in lab[0] or "exploit" not in lab[1]:
                if not (len(lab) == 2 and "explor" in lab[0]):
                    r.v("legend:exploration", f"{a}: legend {lab}")
        fig = self.draw("diversity", h.save_diversity_chart, {"algorithm_name": "Mine"} if rng.random() < 0.5 else {})
        if fig:
            self.lines("diversity", fig, [before["list_diversity"]], ramped=True)
        for nm, f, key in (("global objectives", h.save_global_objectives_chart, "list_global_best"), ("local objectives", h.save_local_objectives_chart, "list_current_best")):
            kw = {"y_labels": [f"objective {k}" for k in range(n_obj)]} if rng.random() < 0.4 else {}
            fig = self.draw(nm + (":many" if n_obj > 10 else ""), f, kw)
            if fig:
                objs = [x[2] for x in before[key]]
                self.lines(nm, fig, [[o[k] for o in objs] for k in range(n_obj)], ramped=True)
                if kw and [ax["y"] for ax in fig.axes] != kw["y_labels"]:
                    r.v(f"text:{nm}", f"{a}: y labels {[ax['y'] for ax in fig.axes]} instead of {kw['y_labels']}")
        # ---- trajectories
        pops = before["pops"]
        if len(pops) >= 2:
            size = min(len(p) for p in pops)
            for _ in range(3):
                k = int(rng.integers(1, min(10, size) + 1))
                ids = [int(v) + 1 for v in rng.permutation(size)[:k]]
                dims = [int(v) + 1 for v in rng.permutation(n_dims)[:int(rng.integers(1, min(2, n_dims) + 1))]]
                if rng.random() < 0.3:
                    ids, dims = tuple(ids), tuple(dims)
                kw = {"list_agent_idx": ids, "selected_dimensions": dims}
                fig = self.draw("trajectory", h.save_trajectory_chart, kw)
                if not fig:
                    continue
                r.n("trajectories")
                so, sd = sorted(ids), sorted(dims)
                if len(sd) == 1:
                    self.lines("trajectory", fig, [[p[i - 1][sd[0] - 1] for p in pops] for i in so], ramped=True, names=[f"Agent {i}" for i in so])
                else:
                    self.curves("trajectory", fig, [([p[i - 1][sd[0] - 1] for p in pops], [p[i - 1][sd[1] - 1] for p in pops]) for i in so], [f"Agent {i}" for i in so])
                ax = fig.axes[0]
                if ax["y"] != f"x{sd[-1]}" or (len(sd) == 2 and ax["x"] != f"x{sd[0]}"):
                    r.v("text:trajectory", f"{a}: dimensions {sd} are labelled {ax['x']!r}, {ax['y']!r}")
            size0 = len(pops[0])
            bad = [{"list_agent_idx": [0, 1], "selected_dimensions": [1]}, {"list_agent_idx": [size0 + 1], "selected_dimensions": [1]}, {"list_agent_idx": [1], "selected_dimensions": [0]},
                   {"list_agent_idx": [1], "selected_dimensions": [n_dims + 1]}, {"list_agent_idx": [-1, 2], "selected_dimensions": [1]}, {"list_agent_idx": [1], "selected_dimensions": [-1]},
                   {"list_agent_idx": [], "selected_dimensions": [1]}, {"list_agent_idx": [1], "selected_dimensions": []}]
            if n_dims >= 3:
                bad.append({"list_agent_idx": [1], "selected_dimensions": [1, 2, 3]})
            if size0 >= 11:
                bad.append({"list_agent_idx": list(range(1, 12)), "selected_dimensions": [1]})
        else:
            bad = [{"list_agent_idx": [1], "selected_dimensions": [1]}]
        for kw in bad:
            self.refused(kw)
        after = snapshot(h)
        for k in before:
            if before[k] != after[k]:
                r.v("modified", f"{a}: drawing charts changed the recorded {k}")
        left = [n for n in charts.plt.get_fignums()]
        if left or charts.seen_open:
            charts.seen_open.clear()
            charts.plt.close("all")
            r.v("left-open", f"{a}: figures stay open after the export")

    # --------------------------------------------------------------
    def draw(self, what, f, kw):
        rng, r = self.rng, self.r
        d = tempfile.mkdtemp(dir=self.top)
        os.chdir(d)
        k = int(rng.integers(0, 4))
        stem = str(rng.choice(["chart", "my chart", "a.b", "x_y-z", "deep.dir"]))
        if k == 0:
            given, path = None, None
        elif k == 1:
            given, path = stem, os.path.join(d, stem)
        elif k == 2:
            given, path = f"one/two/{stem}", os.path.join(d, "one", "two", stem)
        else:
            given, path = os.path.join(d, "abs", stem), os.path.join(d, "abs", stem)
        try:
            with charts.watch(render=self.render) as seen:
                f(**kw, **({"filename": given} if given else {}), **({"verbose": False} if rng.random() < 0.5 else {}))
        except Exception as e:
            r.v(f"failed:{what}:{type(e).__name__}", f"{self.a}: the {what} chart with {kw}, file {given!r}: {type(e).__name__}: {e}")
            return None
        exts = list(kw.get("exts", (".png", ".pdf")))
        files = sorted(os.path.join(w, x) for w, _, fs in os.walk(d) for x in fs)
        if path is None:
            ok = len(files) == len(exts) and sorted(os.path.splitext(x)[1] for x in files) == sorted(exts) and all(os.path.dirname(x) == d for x in files)
        else:
            ok = files == sorted(path + x for x in exts)
        if not ok:
            r.v(f"files:{what}", f"{self.a}: the {what} chart with file {given!r} and extensions {exts} wrote {[os.path.relpath(x, d) for x in files]}")
            return None
        if self.render and any(os.path.getsize(x) < 200 for x in files):
            r.v(f"files:{what}", f"{self.a}: an empty file was written")
        r.n("figures", len(seen))
        r.n("files", len(files))
        if sorted(x.path for x in seen) != files:
            r.v(f"files:{what}", f"{self.a}: {len(seen)} figures for {len(files)} files")
            return None
        first = seen[0]
        for other in seen[1:]:
            for p, q in zip(first.axes, other.axes):
                if len(p["lines"]) != len(q["lines"]) or any(not np.array_equal(x[1], y[1], equal_nan=True) for x, y in zip(p["lines"], q["lines"])):
                    r.v(f"formats:{what}", f"{self.a}: the {what} chart differs between file formats")
        shutil.rmtree(d, ignore_errors=True)
        os.chdir(self.top)
        return first

    def lines(self, what, fig, want, ramped=False, names=None):
        r = self.r
        got = [(l, lab) for ax in fig.axes for l, lab in zip(ax["lines"], ax["labels"])]
        if len(got) != len(want):
            r.v(f"curves:{what}", f"{self.a}: the {what} chart has {len(got)} curves instead of {len(want)}")
            return
        for k, ((x, y), lab) in enumerate(got):
            r.n("points", len(y))
            w = np.asarray(want[k], dtype=float)
            if len(y) != len(w) or not np.array_equal(y, w, equal_nan=True):
                r.v(f"data:{what}", f"{self.a}: curve {k + 1} of the {what} chart has {len(y)} points {list(y)[:6]}, recorded are {len(w)}: {list(w)[:6]}")
                return
            if ramped and not ramp(x):
                r.v(f"axis:{what}", f"{self.a}: curve {k + 1} of the {what} chart is drawn over {list(x)[:6]}")
                return
            if names and lab != names[k]:
                r.v(f"legend:{what}", f"{self.a}: curve {k + 1} of the {what} chart is labelled {lab!r} instead of {names[k]!r}")
                return
        if not all(v for ax in fig.axes for v in ax["visible"]):
            r.v(f"curves:{what}", f"{self.a}: a curve of the {what} chart is invisible")

    def curves(self, what, fig, want, names):
        r = self.r
        got = [(l, lab) for ax in fig.axes for l, lab in zip(ax["lines"], ax["labels"])]
        if len(got) != len(want):
            r.v(f"curves:{what}", f"{self.a}: the {what} chart has {len(got)} curves instead of {len(want)}")
            return
        for k, ((x, y), lab) in enumerate(got):
            r.n("points", len(y))
            if not (np.array_equal(x, want[k][0]) and np.array_equal(y, want[k][1])):
                r.v(f"data:{what}", f"{self.a}: curve {k + 1} of the {what} chart is {list(x)[:4]}, {list(y)[:4]}, recorded is {want[k][0][:4]}, {want[k][1][:4]}")
                return
            if lab != names[k]:
                r.v(f"legend:{what}", f"{self.a}: curve {k + 1} of the {what} chart is labelled {lab!r} instead of {names[k]!r}")
                return

    def refused(self, kw):
        r = self.r
        d = tempfile.mkdtemp(dir=self.top)
        os.chdir(d)
        try:
            with charts.watch(render=False) as seen:
                self.h.save_trajectory_chart(filename="no", verbose=False, **kw)
            r.v("accepted", f"{self.a}: the impossible trajectory request {kw} is accepted ({len(self.h.list_population)} populations)")
        except ValueError:
            r.n("refused")
            if seen:
                r.v("written-anyway", f"{self.a}: the refused request {kw} wrote {[x.path for x in seen]}")
        except Exception as e:
            r.v(f"refused-badly:{type(e).__name__}", f"{self.a}: the impossible trajectory request {kw} gives {type(e).__name__}: {e}")
        finally:
            os.chdir(self.top)
            shutil.rmtree(d, ignore_errors=True)


class Many:
    def __init__(self, n):
        self.n = n

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        v = [float(np.sum((x - 0.1 * k) ** 2) + k) for k in range(self.n)]
        return v if self.n > 1 else v[0]


CHECK = C27()
