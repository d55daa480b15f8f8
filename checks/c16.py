import numpy as np
from mon import core, engine as E, gen, objectives as O, oracles as Q, pair
from mon.sweep import Sweep

FL = ["float", "mixed", "int", "float", "perm", "string", "float", "bool"]
KINDS = {"InjectedFault": O.InjectedFault, "ZeroDivisionError": ZeroDivisionError, "ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "IndexError": IndexError,
         "FloatingPointError": FloatingPointError, "StopIteration": StopIteration, "OverflowError": OverflowError, "AttributeError": AttributeError}


class C16(Sweep):
    id = "C16"
    level = "fault_enumeration"
    technique = ("fault injection into the objective at systematically chosen evaluations (first, each phase border, middle, last), with a monitor for swallowed errors, further "
                 "progress and hangs, and a differential check of the run after the fault against fresh objects")
    rule = ("case = optimizer x mode (single, swarm, thread, process) x evaluation index of the fault x kind of exception; the indices cover the first, the last and a border of "
            "every phase of the undisturbed run; non-trivial = the fault was really raised; distinct by optimizer, mode, phase, index and kind of exception")
    per_algo = {"quick": 2, "thorough": 12}
    assumptions = ("a StopIteration raised in thread mode reaches the caller as the cause of a RuntimeError, because the interpreter wraps it (PEP 479)",
                   "in process mode the failing evaluation is the first one after the chosen number of bytes of the shared log, so its index is approximate")
    floors = {"faults_raised": 1800, "reuse_runs": 1500, "thread_faults": 150, "process_faults": 12, "init_faults": 500, "epoch_faults": 700}
    hang_key = staticmethod(lambda case: f"hang:{case['algo']}")

    def cases(self, seed, tier):
        out = []
        k = {"quick": 0.2, "thorough": 0.6}[tier]
        for i in range(self.per_algo[tier]):
            for algo in gen.ALGOS:
                rng = gen.rng_for(seed, "C16", algo, i)
                fl = FL[int(rng.integers(0, len(FL)))]
                c = gen.base_case(rng, algo, flavour=fl, params="random" if rng.random() < 0.4 else "default", epoch=3, pop=int(rng.choice([10, 11, 15])))
                c.update(mode=str(rng.choice(["single", "swarm"])), budget=30000, points={"quick": 9, "thorough": 40}[tier], salt=int(rng.integers(0, 2 ** 31)),
                         as_problem=bool(rng.random() < 0.5))
                out.append(c)
                if gen.SPEC[algo]["parallel"]:
                    d = dict(c, mode="thread", n_workers=int(rng.choice([2, 4])), delay=0.0005, points=2, epoch=2)
                    out.append(d)
                    if rng.random() < k:
                        out.append(dict(c, mode="process", n_workers=2, points=1, epoch=1))
        order = gen.rng_for(seed, self.id, "order").permutation(len(out))
        return [out[i] for i in order]

    def run(self, case):
        r = core.R()
        a, mode = case["algo"], case["mode"]
        ref = pair.run(dict(case, mode="swarm" if mode in ("thread", "process") else mode, delay=0.0), cpu_limit=30)
        if ref.model is None:
            r.skip = "constructor rejected the configuration"
            return r
        if ref.error is not None:
            r.skip = f"reference run ended with {type(ref.error).__name__}"
            return r
        d_ref = pair.full_digest(ref, mode in ("single", "swarm"))
        phases = [e[2] for e in ref.obj.evals]
        n = len(phases)
        rng = np.random.default_rng(case["salt"])
        pts = {1, n}
        for i in range(1, n):
            if phases[i] != phases[i - 1]:
                pts |= {i, i + 1}        # last evaluation of a phase and first of the next
        pts |= {int(v) for v in rng.integers(1, n + 1, 3)}
        pts = sorted(pts)
        rng.shuffle(pts)
        for at in [int(x) for x in pts[:case["points"]]]:
            kind = str(rng.choice(list(KINDS))) if mode in ("single", "swarm", "thread") else "InjectedFault"
            self.inject(case, at, kind, phases, d_ref, r)
            if r.viol:
                break
        r.sample(f"{mode}: undisturbed run makes {n} calls; faults at {sorted(pts[:case['points']])} all reached the caller, and the runs afterwards are as fresh ones")
        return r

    def inject(self, case, at, kind, phases, d_ref, r):
        a, mode = case["algo"], case["mode"]
        obj = Faulty(case["obj"], at, kind, budget=case["budget"], delay=case.get("delay", 0.0)) if mode != "process" else None
        extra = {}
        if mode == "process":
            extra["fail_at"] = at
        t = pair.run(dict(case, **extra), obj=obj, cpu_limit=30)
        where = f"evaluation {at} of {len(phases)} (phase {phases[at - 1]}), mode {mode}"
        if mode == "process":
            raised = any(v is None for _, v, _ in t.remote)
            right = isinstance(t.error, O.InjectedFault)
        else:
            raised = obj.raised is not None
            right = t.error is obj.raised or (t.error is not None and t.error.__class__.__name__ == kind and str(at) in str(t.error))
        if kind == "StopIteration" and mode == "thread" and isinstance(t.error, RuntimeError) and t.error.__cause__ is not None:
            right = str(at) in str(t.error.__cause__)      # PEP 479: the interpreter itself wraps a StopIteration that leaves the executor's generator
        if not raised:
            if mode == "process":
                r.n("process_fault_not_reached")
                if t.error is not None:
                    r.v(f"error:{a}", f"{where}: nothing was injected but the run ended with {type(t.error).__name__}: {t.error}")
                return
            if t.error is None:
                r.v(f"not-reached:{a}", f"{where}: the evaluation did not take place, although the undisturbed run makes it")
            return
        r.n("faults_raised")
        r.n(f"{mode}_faults")
        r.n("init_faults" if phases[at - 1] == 0 else "epoch_faults")
        r.sig(a, mode, phases[at - 1], at, kind)
        if t.finished:
            r.v(f"swallowed:{mode}:{a}", f"the objective raised {kind} at {where}, but the run went on and returned a result")
            return
        if isinstance(t.error, (E.Watchdog, O.BudgetExceeded)):
            r.v(f"hang:{mode}:{a}", f"the objective raised {kind} at {where}; the run did not end ({t.error})")
            return
        if not right:
            r.v(f"other-error:{mode}:{a}", f"the objective raised {kind} at {where}, but the caller got {type(t.error).__name__}: {t.error}")
            return
        if mode in ("single", "swarm") and len(obj.evals) > at:
            r.v(f"went-on:{a}", f"{len(obj.evals) - at} more evaluations after the objective raised at {where}")
        # afterwards the same optimizer and the same problem work like fresh ones
        if mode != "process":
            obj.heal()
            t2 = pair.run(case, model=t.model, obj=obj, problem=t.problem_in, cpu_limit=30)
        else:
            t2 = pair.run(dict(case), model=t.model, cpu_limit=30)
        r.n("reuse_runs")
        d2 = pair.full_digest(t2, mode in ("single", "swarm"))
        if mode == "process":
            d_ref = dict(d_ref, evals=sorted((0, k) for _, k in d_ref["evals"]))
        m = pair.differ(d_ref, d2)
        if m:
            r.v(f"reuse:{mode}:{a}", f"after an objective failure at {where} the same optimizer and problem behave differently from fresh ones: {m}", params=case["params"])


class Faulty(O.Objective):
    def __init__(self, name, at, kind, **kw):
        super().__init__(name, **kw)
        self.at, self.kind, self.raised, self.count = at, kind, None, 0

    def heal(self):
        self.at, self.raised, self.count, self.phase = None, None, 0, 0
        self.evals.clear()

    def __call__(self, x):
        with self.lock:
            self.count += 1
            fire = self.at is not None and self.count == self.at
            if fire:
                self.evals.append([np.array(x, copy=True), None, self.phase])
                self.raised = KINDS[self.kind](f"injected at evaluation {self.at}")
        if fire:
            raise self.raised
        return super().__call__(x)


CHECK = C16()
