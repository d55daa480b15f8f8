import json, os
import numpy as np
from mon import core, gen, progress

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "progress.json")))
RADIUS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "radius.json")))


class C28(core.Check):
    id = "C28"
    technique = "runtime monitor over repeated seeded runs: new candidates per epoch and gain over the initial population, against recorded floors per optimizer and direction"
    rule = ("case = optimizer x easy problem (continuous, multimodal or mixed) x direction x mode x five seeds; the objective's log gives the best initial value, the best final value and, for each "
            "epoch, whether a vector not seen before was tried; distinct by optimizer, problem and direction")
    assumptions = ("floors (spec/progress.json): a third of the least median gain of five runs, in decades, recorded on the tree under study; none is asked of optimizers that gain too little to tell",
                   "search radius (spec/radius.json): the range of the median of five runs over 16 groups, widened by its own width and by at least one and a half decades down, one decade up")
    floors = {"runs": 4000, "epochs_with_new_vectors": 40000, "gains_judged": 900, "radii_judged": 700}
    K = 5

    def cases(self, seed, tier):
        out = []
        for rep in range(1 if tier == "quick" else 12):
            for a in gen.ALGOS:
                for i, pr in enumerate(progress.PROBLEMS):
                    for j, mm in enumerate(("min", "max")):
                        rng = gen.rng_for(seed, "C28", a, pr, mm, rep)
                        if tier == "quick" and (pr == "rastrigin5" or pr == "long3" and rep == 0 and j != seed % 2):
                            continue
                        out.append({"algo": a, "problem": pr, "minmax": mm, "mode": "swarm" if rep % 3 == 2 else "single", "seeds": [int(rng.integers(0, 2 ** 31 - 1)) for _ in range(self.K)]})
        order = gen.rng_for(seed, "C28", "order").permutation(len(out))
        return [out[i] for i in order]

    def run(self, case):
        r = core.R()
        a = case["algo"]
        ref = SPEC.get(a, {}).get(f"{case['problem']}:{case['minmax']}")
        res = []
        for s in case["seeds"]:
            x, tr = progress.one(a, case["problem"], case["minmax"], s, case["mode"])
            r.n("runs")
            if x is None:
                r.n("runs_not_ended")
                continue
            res.append(x)
            r.n("epochs_with_new_vectors", x["fresh"])
            r.n("epochs", x["epochs"])
            if x["later"] == 0:
                r.v(f"idle:{a}", f"{case['problem']}, {case['minmax']}, seed {s}: not one candidate was evaluated in {x['epochs']} epochs", seed=s)
                return r
            if x["fresh"] == 0:
                r.v(f"stuck:{a}", f"{case['problem']}, {case['minmax']}, seed {s}: all {x['later']} evaluations of {x['epochs']} epochs repeat vectors tried before", seed=s)
                return r
        if len(res) < self.K:
            r.skip = "a run did not end (judged by C17)"
            return r
        r.sig(a, case["problem"], case["minmax"], case["mode"])
        gain = float(np.median([x["gain"] for x in res]))
        imp = sum(x["improved"] for x in res)
        fresh = float(np.mean([x["fresh"] / max(1, x["epochs"]) for x in res]))
        r.sample(f"median gain {gain:.2f} decades, {imp}/{self.K} runs improved, new vectors in {fresh:.0%} of the epochs; recorded: {ref}")
        if case["mode"] == "single":
            self.radius(case, res, r)
        if ref is None:
            return r
        if case["mode"] == "single":
            need = ref["low"] / 3 if ref["low"] > 0.15 else None
            r.n("gains_judged", need is not None)
            r.n("improvements_judged", ref["improved"] >= 0.95)
            low_gain, low_imp = need is not None and gain < need, ref["improved"] >= 0.95 and imp < 2
            if low_gain or low_imp:             # five unlucky runs are possible: twenty more decide
                rng = gen.rng_for(case["seeds"][0], "C28 more", a, case["problem"])
                for s in rng.integers(0, 2 ** 31 - 1, 20):
                    x, tr = progress.one(a, case["problem"], case["minmax"], int(s), case["mode"])
                    r.n("extra_runs")
                    if x is not None:
                        res.append(x)
                gain, imp = float(np.median([x["gain"] for x in res])), sum(x["improved"] for x in res)
            if low_gain and gain < need:
                r.v(f"gain:{a}:{case['minmax']}", f"{case['problem']}, {case['minmax']}: the median gain of {len(res)} runs is {gain:.3f} decades; at least {ref['low']:.2f} were always reached", seeds=case["seeds"])
            elif low_imp and imp < 0.6 * len(res):
                r.v(f"gain:{a}:{case['minmax']}", f"{case['problem']}, {case['minmax']}: {imp} of {len(res)} runs improve on the initial population ({ref['improved']:.0%} did)", seeds=case["seeds"])
        if ref["fresh_low"] >= 0.5:
            r.n("freshness_judged")
            if fresh < ref["fresh_low"] / 2:
                r.v(f"stuck:{a}", f"{case['problem']}, {case['minmax']}: vectors not tried before appear in only {fresh:.0%} of the epochs (at least {ref['fresh_low']:.0%} in every recorded run)", seeds=case["seeds"])
        return r

    def radius(self, case, res, r):
        a, pr = case["algo"], case["problem"]
        ref = RADIUS.get(a, {}).get(pr)
        v = [x["radius"] for x in res if x["radius"] is not None]
        if ref is None or len(v) < 4 or ref[0] < -9:
            return
        w = ref[1] - ref[0]
        lo, hi = ref[0] - max(1.5, w), ref[1] + max(1.0, w)
        r.n("radii_judged")
        m = float(np.median(v))
        if lo <= m <= hi:
            return
        rng = gen.rng_for(case["seeds"][0], "C28 radius", a, pr)
        for s in rng.integers(0, 2 ** 31 - 1, 20):
            x, tr = progress.one(a, pr, case["minmax"], int(s))
            r.n("extra_runs")
            if x is not None and x["radius"] is not None:
                v.append(x["radius"])
        m = float(np.median(v))
        if not lo <= m <= hi:
            r.v(f"radius:{a}", f"{pr}, {case['minmax']}: late in the run the candidates of an epoch spread over 10^{m:.2f} of the box (median of {len(v)} runs); "
                f"10^{ref[0]:.2f} to 10^{ref[1]:.2f} were always observed", seeds=case["seeds"])


CHECK = C28()
