import functools
import os
import tempfile
import numpy as np
from mon import core, engine as E, gen, objectives as O, oracles as Q, pair
from mon.sweep import Sweep
from mealpy import Problem, Termination


class Posed(Problem):
    """What the documentation shows: a problem of one's own with extra data, decoding inside the objective."""

    def __init__(self, bounds=None, minmax="min", inner=None, data=None, **kwargs):
        self.inner = inner
        self.data = data
        super().__init__(bounds, minmax, **kwargs)

    def obj_func(self, x):
        self.decode_solution(x)
        return self.inner(x)


class Method:
    def __init__(self, inner):
        self.inner = inner

    def evaluate(self, x):
        return self.inner(x)


def with_extra(inner, x=None, k=0):
    return inner(x)


class Wrapped(O.Objective):
    """Same objective value in another documented form."""
    form = "list"

    def pure(self, x):
        v = super().pure(x)
        if self.form == "list":
            return [v]
        if self.form == "tuple":
            return (v,)
        if self.form == "array":
            return np.array([v])
        if self.form == "np":
            return np.float64(v)
        return v


class C32(Sweep):
    id = "C32"
    technique = ("differential run-time monitoring: one seeded run posed in every documented way (dictionary, problem object, own problem class, bounds as list/tuple/array, log targets, "
                 "population saving, termination that never strikes first, own optimizer subclass, forms of the objective and its value), the complete traces compared")
    rule = ("case = optimizer x space x objective x direction x mode x hyper-parameters x seed, and several ways to pose it drawn from the list; every one must make the same objective calls in the "
            "same order and report the same history as the plain dictionary form; distinct by configuration and calls")
    assumptions = ("objective values are single numbers here (the forms of several objectives are C13's)",)
    per_algo = {"quick": 3, "thorough": 40}
    WAYS = ["list", "tuple", "array", "object", "subclass", "extra-keys", "console", "file", "save", "opt-subclass", "term-dict", "term-object", "term-loose", "term-start",
            "workers", "method", "partial", "lambda", "v-list", "v-tuple", "v-array", "v-np", "named", "explicit", "object-reused", "var-names", "instance-obj"]
    floors = dict({"pairs_compared": 2400, "calls_compared": 250000}, **{"way_" + w: 40 for w in WAYS})

    def make_case(self, rng, algo, i, tier):
        c = super().make_case(rng, algo, i, tier)
        c["obj"] = str(rng.choice(["sphere", "rastrigin", "linear", "negative", "mixed", "step", "const", "maxabs"]))
        c["epoch"] = min(c["epoch"], 7)
        k = {"quick": 4, "thorough": 8}[tier]
        c["ways"] = [str(w) for w in rng.permutation(self.WAYS)[:k]]
        return c

    def posed(self, case, way, r):
        """One more run of the case, posed another way."""
        c = dict(case)
        obj = O.Objective(c["obj"], budget=c["budget"])
        model = problem = None
        d = E.build_problem(c, obj)
        tmp = None
        if way in ("list", "tuple", "array"):
            b = [E.make_var(s) for s in c["space"]]
            if way == "array":
                a = np.empty(len(b), object)
                a[:] = b
                b = a
            d["bounds"] = tuple(b) if way == "tuple" else b
        elif way == "object":
            problem = Problem(**d)
        elif way == "object-reused":
            problem = Problem(**d)
            problem.generate_solution()
            problem.decode_solution(problem.generate_solution())
            problem.n_objs
            if case["seed"] % 2:
                E.build_model(c).solve(problem, seed=case["seed"] + 1, termination={"max_epoch": 1})
            obj.evals.clear()
        elif way in ("subclass", "instance-obj"):
            d.pop("obj_func")
            problem = Posed(inner=obj, data={"a": 1}, **d)
            if way == "instance-obj":
                problem = Problem(obj_func=obj, **d)
        elif way == "extra-keys":
            d.update(data=[1, 2], my_value=3.5, note="n")
        elif way == "console":
            d["log_to"] = "console"
        elif way == "file":
            tmp = tempfile.mkdtemp(prefix="mealpy-c32-")
            d.update(log_to="file", log_file=os.path.join(tmp, "log.txt"))
        elif way == "save":
            d["save_population"] = not case.get("save_population")
        elif way == "opt-subclass":
            base = E.ALL[c["algo"]]
            model = E.build_model(c, type("My" + base.__name__, (base,), {"__module__": base.__module__}))
        elif way == "explicit":
            m = E.build_model(c)
            model = type(m)(**m.get_parameters())
        elif way == "named":
            c["name"] = "My optimizer"
            d["name"] = "My problem"
        elif way == "term-dict":
            c["termination"] = {"max_epoch": self.epochs(c)}
        elif way == "term-object":
            c["termination"] = Termination(max_epoch=self.epochs(c), max_fe=10 ** 9, max_time=10 ** 6, max_early_stop=10 ** 5)
        elif way == "term-loose":
            c["termination"] = [{"max_fe": 10 ** 9}, {"max_time": 10 ** 6}, {"max_early_stop": 10 ** 5}, {"max_epoch": 10 ** 5}][case["seed"] % 4]
        elif way == "term-start":
            c["termination"] = Termination(max_epoch=self.epochs(c))
        elif way == "workers":
            c["n_workers"] = 4
        elif way == "method":
            d["obj_func"] = Method(obj).evaluate
        elif way == "partial":
            d["obj_func"] = functools.partial(with_extra, obj)
        elif way == "lambda":
            d["obj_func"] = lambda x: obj(x)
        elif way.startswith("v-"):
            obj = Wrapped(c["obj"], budget=c["budget"])
            obj.form = way[2:]
            d["obj_func"] = obj
        elif way == "var-names":
            c["space"] = [dict(s, name=f"other{i}") for i, s in enumerate(c["space"])]
            d = E.build_problem(c, obj)
        try:
            return pair.run(c, model=model, obj=obj, problem=d if problem is None else problem)
        finally:
            if tmp:
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
                os.rmdir(tmp)

    @staticmethod
    def epochs(c):
        return c["epoch"] or E.build_model(c).epoch

    def run(self, case):
        r = core.R()
        t1 = pair.run(case)
        if t1.model is None:
            r.skip = "constructor rejected the configuration"
            return r
        if t1.error is not None:
            r.skip = f"run ended with {type(t1.error).__name__}"
            r.n("runs_ended_by_error")
            return r
        d1 = pair.full_digest(t1)
        r.sig(*Q.nontrivial(t1))
        fields = [f for f in pair.FIELDS if f != "pops"]
        for way in case["ways"]:
            t2 = self.posed(case, way, r)
            d2 = pair.full_digest(t2)
            r.n("pairs_compared")
            r.n("calls_compared", len(d2["evals"]))
            r.n("way_" + way)
            m = pair.differ(d1, d2, fields)
            if m:
                r.v(f"{way}:{case['algo']}", f"posed as '{way}' the same seeded run differs from the plain dictionary form: {m}")
        r.sample(f"{len(d1['evals'])} calls identical in the forms {case['ways']}")
        return r


CHECK = C32()
