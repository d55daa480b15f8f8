import hashlib
import json
import os
import subprocess
import sys
import numpy as np
from mon import core, engine as E, gen, oracles as Q, pair
from mon.sweep import Sweep

SEEDS = [0, 1, 7, 2 ** 31 - 1, 12345, 99991]


def small(rng, algo, i):
    fl = ["float", "mixed", "int", "perm", "float", "tfbin", "mixed", "cat", "bool", "string", "seq", "bin"][(i + int(rng.integers(0, 4))) % 12]
    c = gen.base_case(rng, algo, flavour=fl, params="random" if i % 2 else "default", epoch=int(rng.choice([3, 5, 8])))
    c["pop_size"] = c["pop_size"] and min(c["pop_size"], 24)
    c["seed"] = SEEDS[i % len(SEEDS)] if i % 3 == 0 else c["seed"]
    c["budget"] = 60000
    c["save_population"] = bool(i % 2)
    if i % 2:
        gen.rotate(c, i // 2)
    if i % 5 == 4 and fl == "float":
        c["space"], c["epoch"] = [gen.float_space(rng, int(rng.choice([16, 20, 40])))], 3
    return c


def hexdigest(d):
    return hashlib.sha256(repr(sorted((k, v) for k, v in d.items())).encode()).hexdigest()


class C05(Sweep):
    id = "C05"
    technique = ("differential run-time monitoring: the same seeded run on a fresh object, on a used object, under perturbed global random state, in another "
                 "process with another hash seed, compared on every objective call and every history record; monitor on the global generators")
    rule = ("case = optimizer x space x objective x direction x mode x hyper-parameters x seed; non-trivial = at least one objective call; "
            "distinct by configuration, #calls and #improvements")
    assumptions = ("thread and process mode are compared on the multiset of evaluated solutions, because their order of completion is not specified",)
    per_algo = {"quick": 5, "thorough": 50}
    extra_long = {"quick": 1, "thorough": 6}
    floors = {"pairs_compared": 2900, "cross_process": 150, "seed_pairs": 300}

    def cases(self, seed, tier):
        out = []
        for i in range(self.per_algo[tier]):
            for algo in self.algos():
                rng = gen.rng_for(seed, "C05", algo, i)
                c = small(rng, algo, i)
                r = rng.random()
                if r < 0.25:
                    c["mode"] = "swarm"
                elif r < 0.42:
                    c.update(mode="thread", n_workers=int(rng.choice([2, 3, 6])), delay=0.0004, epoch=min(c["epoch"], 3))
                elif r < 0.425 and tier == "thorough":
                    c.update(mode="process", n_workers=2, epoch=2)
                c["salt"] = int(rng.integers(1, 2 ** 31))
                out.append(c)
        for i in range(self.extra_long[tier]):
            for algo in self.algos():
                c = gen.long_case(gen.rng_for(seed, "C05", algo, "long", i), algo, i)
                c.update(budget=400000, salt=int(gen.rng_for(seed, "C05s", algo, i).integers(1, 2 ** 31)))
                out.append(c)
        # cross-process batches
        n = {"quick": 10, "thorough": 60}[tier]
        for b in range(n):
            rng = gen.rng_for(seed, "C05x", b)
            algos = [str(a) for a in rng.permutation(gen.ALGOS)[:24]]
            out.append({"batch": [small(gen.rng_for(seed, "C05x", b, a), a, k) for k, a in enumerate(algos)], "hashseed": int(rng.integers(1, 10 ** 6)),
                        "salt": int(rng.integers(1, 2 ** 31))})
        order = gen.rng_for(seed, self.id, "order").permutation(len(out))
        return [out[i] for i in order]

    def run(self, case):
        return self.batch(case) if "batch" in case else self.single(case)

    def single(self, case):
        r = core.R()
        a = case["algo"]
        ordered = case.get("mode", "single") in ("single", "swarm")
        pair.scramble(case["salt"])
        t1 = pair.run(case)
        if t1.model is None:
            r.skip = "constructor rejected the configuration"
            return r
        if t1.error is not None:
            r.skip = f"run ended with {type(t1.error).__name__}"
            r.n("runs_ended_by_error")
            return r
        d1 = pair.full_digest(t1, ordered)
        r.n("evaluations_observed", len(d1["evals"]))
        r.sig(*Q.nontrivial(t1))
        if t1.global_np_touched:
            r.v(f"touches-numpy-global:{a}", "the run changed the state of numpy's global generator")
        if t1.global_py_touched:
            r.v(f"touches-random-global:{a}", "the run changed the state of the random module's global generator")
        pair.scramble(case["salt"] // 3 + 11)
        t2 = pair.run(case)
        m = pair.differ(d1, pair.full_digest(t2, ordered))
        r.n("pairs_compared")
        if m:
            r.v(f"fresh:{a}", f"a second fresh run with the same seed differs: {m}")
        pair.scramble(case["salt"] // 5 + 3)
        model = t1.model
        other = dict(case, seed=case["seed"] // 2 + 5, save_population=False)
        t0 = pair.run(other, model=model)
        t3 = pair.run(case, model=model)
        m = pair.differ(d1, pair.full_digest(t3, ordered))
        r.n("pairs_compared")
        if m and not r.viol:
            r.v(f"used:{a}", f"the same seed on an already used optimizer gives another run: {m}", params=case["params"])
        # different seeds
        lo, hi = E.space_bounds(case["space"])
        if not t0.error and any(s["kind"] == "float" for s in case["space"]):
            r.n("seed_pairs")
            first = lambda t: [Q.key_of(x) for x, _, p in t.obj.evals if p == 0]
            x, y = sorted(first(t1)), sorted(first(t0))
            if x and x == y:
                r.v(f"seed-ignored:{a}", f"seeds {case['seed']} and {other['seed']} give the same initial population")
        r.sample(f"{len(d1['evals'])} evaluations and {len(d1.get('gb', []))} epochs identical in 3 runs; final fitness {t1.g_best.target.fitness!r}")
        return r

    def batch(self, case):
        r = core.R()
        env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
        p = subprocess.run([sys.executable, "-m", "checks.c05", "child"], input=json.dumps(case), capture_output=True, text=True, env=env, timeout=230)
        if p.returncode:
            r.incon = "child failed: " + p.stderr[-600:]
            return r
        theirs = json.loads(p.stdout.splitlines()[-1])
        pair.scramble(case["salt"])
        for c, h in zip(case["batch"], theirs):
            t = pair.run(c)
            if t.model is None or t.error is not None:
                continue
            d = pair.full_digest(t)
            r.n("cross_process")
            r.sig(*Q.nontrivial(t), "xproc")
            if h != hexdigest(d):
                r.v(f"process:{c['algo']}", "the same seeded run in another process (other hash seed) differs", case=json.dumps(c))
        return r


CHECK = C05()

if __name__ == "__main__":
    case = json.loads(sys.stdin.read())
    pair.scramble(case["salt"] + 77)
    out = []
    for c in case["batch"]:
        t = pair.run(c)
        out.append(None if t.model is None or t.error is not None else hexdigest(pair.full_digest(t)))
    print(json.dumps(out))
