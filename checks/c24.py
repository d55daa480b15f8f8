import contextlib
import copy
import io
import json
import os
import pickle
import re
import shutil
import sys
import tempfile
import traceback
import numpy as np
from mon import core, engine as E, gen

LINE = re.compile(r"Problem: (.*?), Epoch: (\d+), Current best: (\S+), Global best: (\S+), Runtime: (\S+) seconds")


class Obj:
    def __init__(self, k, fail=None):
        self.k, self.n, self.fail = k, 0, fail

    def __call__(self, x):
        self.n += 1
        if self.fail and self.n == self.fail:
            raise RuntimeError("the objective failed")
        return float(np.sum((np.asarray(x, dtype=float) - 0.3 * self.k) ** 2))


class C24(core.Check):
    id = "C24"
    technique = "trace monitor: sequences of runs in one process with different log destinations; every line found anywhere is matched with the run, epoch and values it belongs to"
    rule = ("case = 3-7 runs in a fresh process (classes, fresh/reused/copied/loaded models, problem objects reused, destinations console/files/off, failing runs, modes, terminations); "
            "distinct by optimizer and sequence of destinations")
    assumptions = ("runs follow each other", "the caller has not attached handlers of his own to the root logger")
    wall_per_case = 300.0
    reps = {"quick": 2, "thorough": 25}
    floors = {"runs": 1500, "lines": 3000, "file_lines": 1000, "console_lines": 600, "silent_runs": 300}

    def cases(self, seed, tier):
        return [{"algo": a, "k": k, "seed": int(gen.rng_for(seed, "C24", a, k).integers(0, 2 ** 31))} for k in range(self.reps[tier]) for a in gen.ALGOS]

    def run(self, case):
        """In a process of its own: the logging module keeps its state for the whole process."""
        r = core.R()
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rfd)
                rc = core.R()
                try:
                    self.sequence(case, rc)
                except BaseException as e:
                    rc.incon = f"harness error {type(e).__name__}: {e} {traceback.format_exc()[-1200:]}"
                with os.fdopen(wfd, "w") as f:
                    f.write(json.dumps(rc.out(), default=str))
                code = 0
            finally:
                os._exit(code)
        os.close(wfd)
        with os.fdopen(rfd) as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            r.incon = "the process of the case died"
            return r
        o = json.loads(data)
        r.viol, r.sigs, r.skip, r.incon = o["viol"], o["sigs"], o["skip"], o["incon"]
        r.stats.update(o["stats"])
        r.sample(f"{case['algo']}: {dict(r.stats)}")
        return r

    def sequence(self, case, r):
        rng = np.random.default_rng(case["seed"])
        d = tempfile.mkdtemp(prefix="mealpy-mon-log-")
        os.chdir(d)
        try:
            self.go(case, rng, d, r)
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def go(self, case, rng, d, r):
        others = [str(v) for v in rng.choice(gen.ALGOS, 2)]
        n = int(rng.integers(3, 8))
        models, problems, runs, streams = [], [], [], []
        real = sys.stdout, sys.stderr
        pool = ["console", "file:a.log", "file:b.txt", "off", "file:", "file:sub/c.log", "console", "off", "other"]
        os.mkdir(os.path.join(d, "sub"))
        with open(os.path.join(d, "b.txt"), "w") as f:
            f.write("kept from before\n")
        for i in range(n):
            dest = str(rng.choice(pool))
            reuse_p = problems and rng.random() < 0.2
            out, err = io.StringIO(), io.StringIO()
            streams.append((out, err))
            sys.stdout, sys.stderr = out, err
            rec = {"i": i, "dest": dest, "error": None}
            try:
                # ---- the optimizer
                u = rng.random()
                if models and u < 0.4:
                    m, cfg = models[int(rng.integers(0, len(models)))]
                    if u < 0.06:
                        m = copy.deepcopy(m)
                    elif u < 0.12:
                        m = pickle.loads(pickle.dumps(m))
                else:
                    a = case["algo"] if i == 0 or rng.random() < 0.6 else str(rng.choice(others))
                    s = gen.SPEC[a]
                    pop = int(rng.choice([p for p in (s["pops_ok"] or [20]) if p <= 30] or [20]))
                    ep = int(rng.integers(2, 6)) if not s["ep_dep"] else 5
                    cfg = {"algo": a, "pop_size": pop if "pop_size" in s["defaults"] else None, "epoch": ep, "params": gen.random_params(rng, a, pop, "fit", ep)}
                    try:
                        m = E.build_model(cfg)
                    except ValueError:
                        cfg = {"algo": a, "pop_size": None, "epoch": None if s["ep_dep"] else 3, "params": {}}
                        m = E.build_model(cfg)
                        if m.epoch > 100:
                            continue
                models.append((m, cfg))
                # ---- the problem
                if reuse_p:
                    prob, rec["name"], rec["dest"], rec["fail"] = problems[int(rng.integers(0, len(problems)))]
                    dest = rec["dest"]
                    if isinstance(prob, dict):
                        prob["name"] = rec["name"] = f"run-{i}-x"
                    else:
                        prob.name = rec["name"] = f"run-{i}-x"
                    obj = prob["obj_func"] if isinstance(prob, dict) else prob.obj_func
                    obj.fail = None
                    rec["fail"] = None
                else:
                    rec["name"] = f"run-{i}-x"
                    rec["fail"] = int(rng.integers(5, 60)) if rng.random() < 0.12 else None
                    obj = Obj(i, rec["fail"])
                    kw = dict(bounds=E.make_var(gen.float_space(rng, 2)), minmax=str(rng.choice(["min", "max"])), obj_func=obj, name=rec["name"])
                    if dest == "console":
                        kw["log_to"] = "console"
                        if rng.random() < 0.3:
                            kw["log_file"] = "unused.log"
                        if rng.random() < 0.3:
                            del kw["log_to"]                   # the console is the default
                    elif dest == "off":
                        kw["log_to"] = None
                        if rng.random() < 0.3:
                            kw["log_file"] = "unused.log"
                    elif dest == "other":
                        kw["log_to"] = "nowhere"
                    else:
                        kw["log_to"] = "file"
                        if dest[5:]:
                            kw["log_file"] = dest[5:] if rng.random() < 0.5 else os.path.join(d, dest[5:])
                    prob = E.Problem(**kw) if rng.random() < 0.5 else kw
                    problems.append((prob, rec["name"], dest, rec["fail"]))
                rec["algo"] = cfg["algo"]
                mode = str(rng.choice(["single", "single", "swarm", "thread"]))
                sk = {"mode": mode, "n_workers": 2 if mode == "thread" and rng.random() < 0.7 else None, "seed": int(rng.integers(0, 10 ** 6)),
                      "termination": {"max_epoch": int(rng.integers(1, 4))} if rng.random() < 0.3 else None}
                obj.n = 0
                before = None
                try:
                    m.solve(prob, **sk)
                except RuntimeError as e:
                    rec["error"] = str(e)
                h = m.history
                k = len(h.list_global_best_fit)
                rec["cur"] = [float(v) for v in h.list_current_best_fit]
                rec["glob"] = [float(v) for v in h.list_global_best_fit]
                rec["text"] = str(m)
                rec["redo"] = (cfg, sk, prob, obj)
            finally:
                sys.stdout, sys.stderr = real
            runs.append(rec)
            rec["streams"] = len(streams) - 1
            r.n("runs")
        r.sig(case["algo"], *[x["dest"] for x in runs])
        # ---- collect
        import logging
        for lg in [logging.getLogger(k) for k in list(logging.Logger.manager.loggerDict)]:
            for h in getattr(lg, "handlers", []):
                h.flush()
        found = {}         # place -> text
        for k, (o, e) in enumerate(streams):
            found["stdout", k], found["stderr", k] = o.getvalue(), e.getvalue()
        files = sorted(os.path.relpath(os.path.join(w, f), d) for w, _, fs in os.walk(d) for f in fs)
        for f in files:
            found["file", f] = open(os.path.join(d, f), encoding="utf-8").read()
        asked = {x["dest"][5:] or "history.txt" for x in runs if x["dest"].startswith("file:")} | {"b.txt"}
        if set(files) - asked:
            r.v("stray-file", f"{[x['dest'] for x in runs]}: log files {sorted(set(files) - asked)} appear although nobody asked for them")
        if not found["file", "b.txt"].startswith("kept from before\n"):
            r.v("file-destroyed", "the content that the log file had before is gone")
        where = {}
        for place, text in found.items():
            for line in text.splitlines():
                m = LINE.search(line)
                if m:
                    where.setdefault(m.group(1), []).append((place, int(m.group(2)), m.group(3), m.group(4), line))
                    r.n("lines")
                    r.n("file_lines" if place[0] == "file" else "console_lines")
                elif "Epoch:" in line and ">>>" in line:
                    r.v("garbled", f"line {line[:200]!r}")
        what = [f"{x['algo']}->{x['dest']}{' fails' if x['error'] else ''}" for x in runs]
        for x in runs:
            got = where.pop(x["name"], [])
            if x["dest"] in ("off", "other"):
                r.n("silent_runs")
                if got:
                    r.v("not-silent", f"{what}: run {x['i']} asked for no log, but {len(got)} lines appear in {sorted({str(g[0]) for g in got})}: {got[0][4][:200]}")
                o, e = streams[x["streams"]]
                rest = [l for l in re.split(r"[\r\n]+", o.getvalue() + "\n" + e.getvalue()) if re.search(r", (INFO|WARNING|DEBUG), ", l) or ">>>" in l]
                if rest:
                    r.v("not-silent", f"{what}: run {x['i']} asked for no log, but prints {rest[0][:200]!r}")
                continue
            if x["dest"] == "console":
                places = {("stderr", x["streams"]), ("stdout", x["streams"])}
            else:
                places = {("file", x["dest"][5:] or "history.txt")}
            stray = [g for g in got if g[0] not in places]
            if stray:
                r.v("wrong-place:" + x["dest"].split(":")[0], f"{what}: run {x['i']} asked for {x['dest']}, but {len(stray)} of its lines are in {sorted({str(g[0]) for g in stray})}")
                continue
            epochs = [g[1] for g in got]
            n_ep = len(x["glob"])
            if epochs != list(range(1, n_ep + 1)):
                r.v("lines:" + x["dest"].split(":")[0], f"{what}: run {x['i']} made {n_ep} epochs, its log has the lines {epochs}")
                continue
            for g, c, b in zip(got, x["cur"], x["glob"]):
                if not (num(g[2], c) and num(g[3], b)):
                    r.v("values", f"{what}: run {x['i']}, epoch {g[1]}: the log says current {g[2]} and global best {g[3]}, the run had {c} and {b}")
                    break
            lines = "\n".join(found[p] for p in places if p in found)
            if x["text"] not in lines:
                r.v("no-heading", f"{what}: run {x['i']}: the log does not tell the optimizer and its parameters ({x['text']})")
        for name, got in where.items():
            r.v("unknown-run", f"{what}: lines of an unknown run {name!r}")
        # ---- the same runs without a log
        for x in runs:
            if x["error"] or not x["glob"] or rng.random() > 0.5:
                continue
            cfg, sk, prob, obj = x["redo"]
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                obj.fail = None
                kw = dict(prob) if isinstance(prob, dict) else dict(bounds=prob.bounds, minmax=prob.minmax, obj_func=obj)
                kw.update(log_to=None, name="silent")
                m = E.build_model(cfg)
                m.solve(kw, **sk)
            r.n("redone")
            if [float(v) for v in m.history.list_global_best_fit] != x["glob"] or [float(v) for v in m.history.list_current_best_fit] != x["cur"]:
                r.v("log-changes-run", f"{what}: run {x['i']} logged to {x['dest']} gave {x['glob'][:5]}, without a log it gives {m.history.list_global_best_fit[:5]}")


def num(text, v):
    try:
        return abs(float(text) - v) <= 1e-5 * max(1.0, abs(v))
    except ValueError:
        return False


CHECK = C24()
