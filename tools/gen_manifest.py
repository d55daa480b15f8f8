"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("MEALPY_ROOT", "/repo")
sys.path[:0] = [os.environ["MEALPY_ROOT"], ROOT]
NOTE = {
    "C05": "Two or three executions of the same seeded run must be indistinguishable; trusts the objective's own record of its calls.",
    "C07": "Time is virtual: the time module's clocks advance only with objective calls and epochs, so the verdict does not depend on machine load.",
    "C12": "Statistical verdicts with a false-alarm probability below 1e-9 per test; the sample sizes bound the smallest bias that is detected.",
    "C17": "At most 200000 evaluations and 20 s CPU are granted to runs that nominally need a few thousand evaluations.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        c = importlib.import_module("checks." + i.lower()).CHECK
        base = ("Holds on every execution the workload produced (seeded, so repeatable; other seeds and the thorough tier widen it); an oracle that shares no code with the "
                "library judges what was observed. ")
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} --tier quick", "thorough_cmd": f"bash run.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c.technique, "level": c.level,
                       "level_note": base + NOTE.get(i, "") + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else "")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash run.sh --setup", "hooks": {"guard": "MEALPY_VERIF", "enable": "no hook is needed: all monitors attach from outside (objective, evolve, "
           "clock, logging, matplotlib); the variable is reserved and unused", "source_commits": []}, "checks": checks, "not_applicable": na,
           "notes": "run.sh ID --replay FILE re-runs the recorded case of a violation; --seed N and --dump FILE are for exploration."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
