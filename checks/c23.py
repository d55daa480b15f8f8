import json
import os
import subprocess
import sys
import tempfile
import shutil
import numpy as np
from mon import core, engine as E, gen, persist as P
from mon.pair import quiet

STEMS = ["model", "a.b", "pkl", "m.pkl.bak", "x.PKL", "näme", "with space", "p", ".hidden", "abc.pk", "UPPER", "v1.0", "pkl.model", "model.pickle"]


class Child:
    """Another interpreter that loads models; one per worker, started when first needed."""

    def __init__(self):
        self.p = None

    def ask(self, path, case, seed):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED="123")
            self.p = subprocess.Popen([sys.executable, "-m", "mon.persist"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        self.p.stdin.write(json.dumps([path, case, seed]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            raise OSError("the reading process died")
        return json.loads(line)


CHILD = Child()


def where(a, b):
    """First public fact in which two states differ."""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k) and json.dumps(a.get(k)) != json.dumps(b.get(k)):
            return f"{k}: {json.dumps(a.get(k))[:200]} / {json.dumps(b.get(k))[:200]}"
    return None


class C23(core.Check):
    id = "C23"
    technique = "differential monitor: public state and seeded follow-up runs of the original, the loaded copy and a copy loaded in another process"
    rule = ("case = optimizer: saved unsolved, solved once and solved twice, with random parameters, problem forms, spaces, modes and path forms; distinct by optimizer, history, path form and problem form")
    assumptions = ("the objective can be pickled, as the documentation demands", "relative paths are relative to the working directory")
    reps = {"quick": 2, "thorough": 14}
    wall_per_case = 400.0
    floors = {"saved": 800, "other_process": 500, "runs_compared": 1200, "failed_saves": 200}

    def cases(self, seed, tier):
        return [{"algo": a, "reps": self.reps[tier], "seed": int(gen.rng_for(seed, "C23", a).integers(0, 2 ** 31))} for a in gen.ALGOS]

    def run(self, case):
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        d = tempfile.mkdtemp(prefix="mealpy-mon-save-")
        cwd = os.getcwd()
        try:
            os.chdir(d)
            with quiet():
                for k in range(case["reps"]):
                    for solved in (0, 1 + k % 2):
                        self.one(case["algo"], solved, rng, d, r)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        r.sample(f"{case['algo']}: {dict(r.stats)}")
        return r

    def one(self, a, solved, rng, top, r):
        from mealpy.utils import io
        d = tempfile.mkdtemp(dir=top)
        s = gen.SPEC[a]
        pop = int(rng.choice([k for k in (s["pops_ok"] or [20]) if k <= 40] or [20]))
        params = gen.random_params(rng, a, pop, str(rng.choice(["fit", "random"])), 4)
        try:
            m = E.ALL[a](**dict(params, epoch=4, **({"pop_size": pop} if "pop_size" in s["defaults"] else {})), **({"name": "my run"} if rng.random() < 0.3 else {}))
        except ValueError:
            r.n("joint_refused")
            m = E.ALL[a](**({"epoch": 4} if not s["ep_dep"] else {}))
            if m.epoch > 100:
                return
        mixed = rng.random() < 0.3
        case = {"algo": a, "space": gen.mixed_space(rng) if mixed else [gen.float_space(rng, 2)], "obj": str(rng.choice(["sphere", "rastrigin", "mixed"])), "minmax": str(rng.choice(["min", "max"]))}
        form = str(rng.choice(["dict", "Problem", "own", "function"]))
        for i in range(solved):
            kw = dict(bounds=[E.make_var(x) for x in case["space"]], minmax=case["minmax"], log_to=None, save_population=bool(rng.random() < 0.4), name=f"problem {i}")
            if form == "own":
                prob = P.OwnProblem(shift=0.25, **kw)
            elif form == "function":
                prob = dict(kw, obj_func=P.module_objective)
            elif form == "Problem":
                prob = E.Problem(obj_func=P.Recorder(case["obj"]), **kw)
            else:
                prob = dict(kw, obj_func=P.Recorder(case["obj"]))
            u = rng.random()
            try:
                m.solve(prob, mode="swarm" if u < 0.2 else "thread" if u < 0.3 else "single", n_workers=2 if 0.2 <= u < 0.3 else None, seed=int(rng.integers(0, 10 ** 6)),
                        termination={"max_epoch": 3} if rng.random() < 0.3 else None)
            except RuntimeError:
                r.n("unfinished")
                return
        st = P.state(m)
        # ---- the file
        k = int(rng.integers(0, 10))
        stem = STEMS[int(rng.integers(0, len(STEMS)))]
        os.chdir(d)
        if k < 3:
            given, file = os.path.join(d, stem), os.path.join(d, stem + ".pkl")
        elif k < 6:
            given, file = os.path.join(d, stem + ".pkl"), os.path.join(d, stem + ".pkl")
        elif k < 7:
            given, file = None, os.path.join(d, "model.pkl")
        elif k < 8:
            os.mkdir(os.path.join(d, "sub.pkl"))
            given, file = os.path.join("sub.pkl", stem), os.path.join(d, "sub.pkl", stem + ".pkl")
        else:
            given, file = stem, os.path.join(d, stem + ".pkl")
        r.sig(a, solved, form if solved else "unsolved", k, mixed)
        tag = f"{a}"
        try:
            io.save_model(m, given)
        except Exception as e:
            r.v(f"save-failed:{tag}", f"saving a {'solved' if solved else 'fresh'} {a} to {given!r} fails: {type(e).__name__}: {e}")
            return
        r.n("saved")
        found = sorted(os.path.join(w, f) for w, _, fs in os.walk(d) for f in fs)
        if found != [file]:
            r.v("save-path", f"saving to {given!r} wrote {[os.path.relpath(f, d) for f in found]} instead of {os.path.relpath(file, d)}")
            return
        x = where(st, P.state(m))
        if x:
            r.v(f"save-changes:{tag}", f"saving changed the original: {x}")
        forms = [given] + ([] if given is None else [given[:-4] if given.endswith(".pkl") else given + ".pkl"]) + ([None] if file.endswith("/model.pkl") and k >= 8 else []) + [file]
        copies = []
        for g in forms:
            if g is not None and g and os.path.basename(g) in ("", "."):
                continue
            try:
                c = io.load_model(g)
            except Exception as e:
                r.v("load-path" if copies else f"load-failed:{tag}", f"the model saved to {given!r} is not loaded from {g!r}: {type(e).__name__}: {e}")
                return
            x = where(st, P.state(c))
            if x:
                r.v(f"loaded-state:{tag}", f"the loaded {'solved' if solved else 'fresh'} model differs from the original: {x}")
                return
            copies.append(c)
            r.n("loaded")
        if any(c is m for c in copies) or len(set(map(id, copies))) != len(copies):
            r.v("load-shared", "loading returns an object that already existed")
        # ---- another process
        seed = int(rng.integers(0, 10 ** 6))
        got = CHILD.ask(file, case, seed)
        if "error" in got:
            r.v(f"other-process:{tag}", f"another process cannot use the saved model: {got['error']}")
            return
        r.n("other_process")
        x = where(st, got["state"])
        if x:
            r.v(f"other-process-state:{tag}", f"the model loaded in another process differs: {x}")
        # ---- runs
        run_c = P.rerun(copies[0], case, seed)
        x = where(st, P.state(m))
        if x:
            r.v(f"not-independent:{tag}", f"a run of the loaded copy changed the original: {x}")
        run_o = P.rerun(m, case, seed)
        for who, got_run in (("the loaded copy", run_c), ("the copy in another process", got["run"])):
            if got_run is None or run_o is None:
                r.n("unfinished")
                continue
            r.n("runs_compared")
            x = where(run_o, json.loads(json.dumps(got_run)))
            if x:
                n = next((i for i, (p, q) in enumerate(zip(run_o["evals"], got_run["evals"])) if p != q), "end")
                r.v(f"run-differs:{tag}", f"the seeded run of {who} differs from the original's (evaluation {n}): {x[:300]}")
        x = where(st, P.state(copies[-1])) if len(copies) > 1 else None
        if x:
            r.v(f"not-independent:{tag}", f"runs of the original and of one copy changed another copy: {x}")
        # ---- second generation over the same file, and a save that fails
        if run_o is not None:
            st2 = P.state(m)
            io.save_model(m, file)
            c2 = io.load_model(file)
            x = where(st2, P.state(c2))
            if x:
                r.v(f"resaved:{tag}", f"saving over an earlier file and loading gives another state: {x}")
            io.save_model(c2, file)
            x = where(st2, P.state(io.load_model(file)))
            if x:
                r.v(f"second-generation:{tag}", f"a copy of a copy differs: {x}")
            m.note = lambda: None         # cannot be pickled
            try:
                io.save_model(m, file)
            except Exception:
                r.n("failed_saves")
                try:
                    x = where(st2, P.state(io.load_model(file)))
                except Exception as e:
                    x = f"{type(e).__name__}: {e}"
                if x:
                    r.v("failed-save-destroys", f"a save that fails with an error destroys the model saved before: {x}")
            else:
                r.n("pickled_anyway")
        try:
            io.load_model(os.path.join(d, "never saved"))
        except Exception:
            r.n("missing_refused")
        else:
            r.v("load-missing", "loading a file that does not exist returns something")


CHECK = C23()
