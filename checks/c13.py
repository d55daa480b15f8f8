import fractions
import numpy as np
from mon import core, engine as E, gen, objectives as O, oracles as Q
from mon.sweep import Sweep
from mealpy.utils.target import Target
from mealpy.utils.agent import Agent
from mealpy import Problem, FloatVar

NAMES = ["multi2", "multi3", "multi2t", "multi4", "multi6", "intarr", "arr1", "arr0", "tup1", "np64", "npint", "big2", "aslist", "np32", "asint", "sphere"]


class Odd:
    pass


BAD_RETURNS = [("None", None), ("str", "1.5"), ("dict", {"a": 1.0}), ("set", {1.0, 2.0}), ("object", Odd()), ("empty list", []), ("empty tuple", ()), ("empty array", np.array([])),
               ("list of None", [None, 1.0]), ("list of strings", ["1", "2"]), ("ragged", [[1.0], [1.0, 2.0]]), ("generator", "GEN"), ("complex", 1 + 2j), ("list of complex", [1.0, 2j]),
               ("function", "FUN"), ("bytes", b"12")]
BAD_WEIGHTS = [("one too many", 1), ("one too few", -1), ("str", "1"), ("dict", {"a": 1.0}), ("set", {1.0}), ("object", Odd()), ("strings", "STR")]


def weights_for(rng, n):
    u = rng.integers(0, 8)
    w = np.round(rng.uniform(-2, 3, n), 3)
    if u == 0:
        return None
    if u == 1:
        return float(w[0])
    if u == 2:
        return int(rng.integers(1, 5))
    if u == 3:
        return [float(v) for v in w]
    if u == 4:
        return tuple(float(v) for v in w)
    if u == 5:
        return w
    if u == 6:
        return [int(v) for v in rng.integers(-3, 4, n)]
    return [0.0] * (n - 1) + [1.0]


def as_list(w):
    return w.tolist() if isinstance(w, np.ndarray) else list(w) if isinstance(w, tuple) else w


class C13(Sweep):
    id = "C13"
    technique = "value monitor: targets, agents, copies and every record of a run recomputed from the recorded objective values and the user's weights"
    rule = ("case = batch of generated targets (objectives x container x numeric type x weights), hostile returns and weights, or a run of an optimizer on a multi-objective function "
            "with some form of weights; distinct by container, number of objectives and weight form")
    assumptions = ("fitness is compared with a relative tolerance of 1e-12 of the sum of the absolute weighted terms (order of summation)",)
    per_algo = {"quick": 8, "thorough": 80}
    modes = ("single", "swarm", "single", "thread")
    n = {"quick": 1200, "thorough": 10000}
    floors = {"targets": 20000, "records": 30000, "rejected": 3000, "copies": 10000}

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        c["obj"] = str(rng.choice(NAMES))
        c["epoch"], c["n_workers"] = min(c["epoch"], 5), 3
        n = O.N_OBJS.get(c["obj"], 1)
        c["weights"] = as_list(weights_for(rng, n))
        if c["weights"] is None:
            c.pop("weights")
        c["as_problem"] = bool(rng.random() < 0.3)
        return c

    def cases(self, seed, tier):
        out = super().cases(seed, tier)
        for i in range(self.n[tier]):
            out.append({"unit": True, "seed": int(gen.rng_for(seed, "C13", i).integers(0, 2 ** 31))})
        return out

    def run(self, case):
        if "unit" not in case:
            return super().run(case)
        r = core.R()
        rng = np.random.default_rng(case["seed"])
        try:
            for _ in range(60):
                self.target(rng, r)
            self.bad(rng, r)
            self.bad_run(rng, r)
            self.n_objs(rng, r)
        except Exception as e:
            import traceback
            r.v(f"crash:{type(e).__name__}", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
        r.sample("60 targets with their copies, every unsupported return value and weight, targets through Problem.get_target")
        return r

    def values(self, rng):
        n = int(rng.choice([1, 1, 2, 3, 5, 9]))
        scale = 10.0 ** rng.integers(-6, 9)
        base = [float(v) for v in rng.normal(0, scale, n)]
        if rng.random() < 0.3:
            base = [int(rng.integers(-1000, 1000)) for _ in range(n)]
        u = rng.integers(0, 8)
        if n == 1 and u < 4:
            f = [float, np.float64, np.float32, lambda v: int(v)][u]
            x = f(base[0])
            return x, [x], "scalar"
        if u == 4:
            return tuple(base), base, "tuple"
        if u == 5:
            return np.array(base), base, "array"
        if u == 6 and n > 1:
            return np.array(base).reshape(1, n), base, "array2d"
        if u == 7:
            b = [np.float32(v) if i % 2 else v for i, v in enumerate(base)]
            return b, b, "list-mixed"
        return list(base), base, "list"

    def target(self, rng, r):
        given, objs, kind = self.values(rng)
        o = np.array(objs, float)
        w = weights_for(rng, len(o))
        wv = np.ones(len(o)) if w is None else (np.full(len(o), float(w)) if isinstance(w, (int, float)) else np.asarray(w, float))
        r.sig(kind, len(o), type(w).__name__)
        if rng.random() < 0.5:
            t = Target(objectives=given, weights=w)
        else:
            P = Problem(bounds=FloatVar(lb=[-1.0] * 2, ub=[1.0] * 2), minmax=str(rng.choice(["min", "max"])), obj_func=lambda x: given, log_to=None, **({} if w is None else {"obj_weights": w}))
            t = P.get_target(np.zeros(2))
        r.n("targets")

        def good(t, what):
            f = float(np.dot(wv, o))
            if not isinstance(t.objectives, np.ndarray) or t.objectives.shape != o.shape or not np.array_equal(np.asarray(t.objectives, float), o):
                r.v(f"objectives:{kind}", f"{what}: {given!r} is stored as {t.objectives!r}")
            elif not abs(float(t.fitness) - f) <= 1e-12 * max(1e-300, float(np.sum(np.abs(wv * o)))):
                r.v(f"fitness:{kind}", f"{what}: objectives {o.tolist()} weights {w!r} give fitness {t.fitness!r} instead of {f!r}")
            return not r.viol
        if not good(t, "target"):
            return
        f0 = float(t.fitness)
        c = t.copy()
        r.n("copies")
        if not good(c, "copy of the target"):
            return
        # neither the user's objects nor the copy's arrays may be shared
        c.objectives[...] = 12345
        if not good(t, "target after its copy was modified"):
            return
        if isinstance(given, np.ndarray) and given.ndim:
            given_c = given.copy()
            given[...] = -99
            ok = good(t, "target after the user's array was modified")
            given[...] = given_c
            if not ok:
                return
        if isinstance(w, np.ndarray):
            w[...] = 7.5
            if t.copy().fitness != t.fitness:
                r.v("weights-shared", "changing the user's weight array changes the copies of a target")
                return
        a = Agent(solution=np.arange(3.0), target=Target(objs, None), velocity=np.ones(3), tag="x")
        b = a.copy()
        r.n("copies")
        if b is a or b.target is a.target or b.solution is a.solution or b.velocity is a.velocity:
            r.v("agent-copy", "the copy of an agent shares its solution, target or array attributes")
            return
        if not np.array_equal(b.solution, a.solution) or b.target.fitness != a.target.fitness or not np.array_equal(b.target.objectives, a.target.objectives) or b.tag != "x":
            r.v("agent-copy", "the copy of an agent differs from the agent")
            return
        b.solution[0], b.velocity[0] = 50.0, 60.0
        b.target.objectives[0] = 1e7
        if a.solution[0] == 50.0 or a.velocity[0] == 60.0 or a.target.objectives[0] == 1e7 or a.target.fitness != Target(objs, None).fitness:
            r.v("agent-copy", "modifying the copy of an agent changes the agent")

    def bad(self, rng, r):
        for nm, v in BAD_RETURNS:
            v = (x for x in [1.0]) if isinstance(v, str) and v == "GEN" else len if isinstance(v, str) and v == "FUN" else v
            for how in ("target", "problem"):
                try:
                    if how == "target":
                        t = Target(objectives=v)
                    else:
                        t = Problem(bounds=FloatVar(lb=[-1.0] * 2, ub=[1.0] * 2), minmax="min", obj_func=lambda x: v, log_to=None).get_target(np.zeros(2))
                except Exception:
                    r.n("rejected")
                    continue
                r.v(f"accepted-return:{nm}", f"an objective function returning {nm} gives a target with fitness {t.fitness!r}")
        n = int(rng.integers(2, 5))
        for nm, w in BAD_WEIGHTS:
            w = [1.0] * (n + w) if isinstance(w, int) else ["a"] * n if isinstance(w, str) and w == "STR" else w
            for cont in ((list, tuple, np.array) if isinstance(w, list) else (lambda q: q,)):
                try:
                    t = Target(objectives=[1.0] * n, weights=cont(w))
                except Exception:
                    r.n("rejected")
                    continue
                r.v(f"accepted-weights:{nm}", f"weights {cont(w)!r} for {n} objectives give fitness {t.fitness!r}")

    def bad_run(self, rng, r):
        """The same through a whole run: an error, never a result."""
        nm, v = BAD_RETURNS[int(rng.integers(0, len(BAD_RETURNS)))]
        v = (x for x in [1.0]) if isinstance(v, str) and v == "GEN" else len if isinstance(v, str) and v == "FUN" else v
        algo = gen.ALGOS[int(rng.integers(0, len(gen.ALGOS)))]
        weights = None
        if rng.random() < 0.4:
            nm, v, weights = "2 objectives and 3 weights", [1.0, 2.0], [1.0, 1.0, 1.0]
        P = dict(bounds=FloatVar(lb=[-1.0] * 3, ub=[1.0] * 3), minmax="min", obj_func=lambda x: v, log_to=None)
        if weights:
            P["obj_weights"] = weights
        c = {"algo": algo, "pop_size": 20 if "pop_size" in gen.SPEC[algo]["defaults"] else None, "epoch": 2, "params": {}}
        try:
            m = E.build_model(c)
        except Exception:
            return
        try:
            with pair_quiet():
                g = m.solve(P, seed=1, mode=str(rng.choice(["single", "swarm", "thread"])), n_workers=2)
        except Exception:
            r.n("rejected_runs")
            return
        r.v(f"accepted-run:{nm}", f"{algo} returned fitness {g.target.fitness!r} although the objective function returns {nm}")

    def n_objs(self, rng, r):
        given, objs, kind = self.values(rng)
        w = weights_for(rng, len(objs))
        P = Problem(bounds=FloatVar(lb=[-1.0] * 2, ub=[1.0] * 2), minmax="min", obj_func=lambda x: given, log_to=None, **({} if w is None else {"obj_weights": w}))
        k = P.n_objs
        r.n("n_objs")
        if k != len(objs):
            r.v("n_objs", f"{given!r} has {len(objs)} objectives, n_objs says {k}")
        wv = np.ones(len(objs)) if w is None else (np.full(len(objs), float(w)) if isinstance(w, (int, float)) else np.asarray(w, float))
        f = P.get_target(np.zeros(2)).fitness
        if abs(f - float(np.dot(wv, np.array(objs, float)))) > 1e-12 * max(1e-300, float(np.sum(np.abs(wv * np.array(objs, float))))):
            r.v("n_objs", f"after asking for n_objs the fitness of {given!r} with weights {w!r} is {f!r}")

    def judge(self, tr, r):
        c = tr.case
        a = c["algo"]
        cache = {}

        def check(rec, where):
            r.n("records")
            if rec is None or rec[1] is None:
                r.v(f"no-target:{a}", f"{where}: agent without target")
                return False
            k = Q.key_of(rec[0])
            if k not in cache:
                o = np.atleast_1d(np.asarray(tr.obj.pure(np.asarray(rec[0], float)), float)).ravel()
                w = c.get("weights")
                wv = np.ones(len(o)) if w is None else np.full(len(o), float(w)) if np.isscalar(w) else np.asarray(w, float)
                cache[k] = (o, float(np.dot(wv, o)), float(np.sum(np.abs(wv * o))))
            o, f, s = cache[k]
            if len(rec[2]) != len(o) or not np.array_equal(np.asarray(rec[2], float), o):
                r.v(f"objectives:{a}", f"{where}: stored {np.asarray(rec[2]).tolist()}, the function gives {o.tolist()}")
                return False
            if abs(rec[1] - f) > 1e-12 * max(s, 1e-300):
                r.v(f"fitness:{a}", f"{where}: objectives {o.tolist()}, weights {c.get('weights')}: fitness {rec[1]!r} instead of {f!r}")
                return False
            return True
        for p in tr.init_pop or []:
            if not check(p, "initial population"):
                return
        for e in tr.epochs:
            for p in e.get("pop") or []:
                if not check(p, f"population after epoch {e['epoch']}"):
                    return
            for nm, rec in e.get("rec", {}).items():
                if not check(rec, f"{nm} of epoch {e['epoch']}"):
                    return
        if tr.finished:
            h = tr.model.history
            check(E.agent_rec(tr.g_best), "returned agent")
            for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
                for x in getattr(h, nm):
                    if not check(E.agent_rec(x), nm) or not check(E.agent_rec(x.copy()), f"copy of {nm}"):
                        return
            for x, v in zip(h.list_global_best, h.list_global_best_fit):
                if x.target.fitness != v:
                    r.v(f"list:{a}", f"list_global_best_fit {v!r} for an agent with fitness {x.target.fitness!r}")
                    return


def pair_quiet():
    from mon.pair import quiet
    return quiet()


CHECK = C13()
