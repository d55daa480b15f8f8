"""Check framework: results, known findings, parallel runner, evidence."""
import json
import os
import re
import signal
import sys
import time
import traceback
from collections import Counter

from . import cov

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


REACHED = set()      # "file:line" of the library executed by the workers


class R:
    """Result of one case."""

    def __init__(self):
        self.viol, self.stats, self.sigs, self.sample_text, self.skip, self.incon = [], Counter(), [], None, None, None

    def v(self, key, msg, **detail):
        self.viol.append({"key": key, "msg": str(msg)[:1500], "detail": {k: repr(x)[:400] for k, x in detail.items()}})

    def n(self, name, k=1):
        self.stats[name] += int(k)

    def sig(self, *x):
        self.sigs.append("|".join(str(k) for k in x))

    def sample(self, text):
        if self.sample_text is None:
            self.sample_text = str(text)[:600]

    def out(self):
        return {"viol": self.viol, "stats": dict(self.stats), "sigs": self.sigs, "sample": self.sample_text, "skip": self.skip,
                "incon": self.incon}


def load_known(pid):
    out, fixed = [], []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    id = None
    level = "exploration"
    technique = ""
    rule = ""
    assumptions = ()
    floors = {}                # counter -> minimum for a verdict
    line_evidence = True       # record which lines of the library the workers execute
    hang_key = None            # if set, a case making no CPU progress at all is a violation with this key
    wall_per_case = 240.0
    budget = {"quick": 420.0, "thorough": 3000.0}
    workers = 8

    def setup(self):
        pass

    def cases(self, seed, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def finish(self, results):
        """Oracles over the whole set of results (list of (case, result dict)); returns an R."""
        return R()


# ------------------------------------------------------------------ runner
def _cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def _children(pid):
    out = []
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            out += [int(x) for x in open(f"/proc/{pid}/task/{t}/children").read().split()]
    except OSError:
        pass
    return out


def _tree(pid):
    todo, seen = [pid], []
    while todo:
        p = todo.pop()
        seen.append(p)
        todo += _children(p)
    return seen


def _worker(check, cases, rfd, wfd):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)
    rf, wf = os.fdopen(rfd, "r"), os.fdopen(wfd, "w")
    if check.line_evidence:
        cov.start()
    while True:
        line = rf.readline()
        if not line or line.strip() == "q":
            break
        i = int(line)
        try:
            res = check.run(cases[i]).out()
        except BaseException as e:       # a failure of the harness itself, never a verdict
            r = R()
            r.incon = f"harness error {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
            res = r.out()
        wf.write(json.dumps([i, res, cov.take()], default=str) + "\n")
        wf.flush()
    os._exit(0)


class Pool:
    def __init__(self, check, cases, n):
        self.check, self.cases = check, cases
        self.ws = [self.spawn() for _ in range(n)]

    def spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in getattr(self, "ws", []):
                for fd in (w["w"], w["r"]):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            try:
                _worker(self.check, self.cases, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        os.set_blocking(r2, False)
        return {"pid": pid, "w": w1, "r": r2, "buf": b"", "case": None, "t": 0.0, "cpu": None, "cpu_t": 0.0}

    def kill(self, w):
        try:
            os.killpg(w["pid"], signal.SIGKILL)
        except OSError:
            try:
                os.kill(w["pid"], signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(w["pid"], 0)
        except OSError:
            pass
        for fd in (w["w"], w["r"]):
            try:
                os.close(fd)
            except OSError:
                pass


def run_cases(check, cases, deadline, log):
    import select
    results = {}
    todo = list(range(len(cases)))[::-1]
    pool = Pool(check, cases, min(check.workers, max(1, len(cases))))
    truncated = False

    def give(w):
        nonlocal truncated
        if todo and time.time() > deadline:
            truncated = True
            log(f"time budget used up: {len(todo)} of {len(cases)} cases not run")
            todo.clear()
        if todo:
            w["case"], w["t"], w["cpu"] = todo.pop(), time.time(), None
            try:
                os.write(w["w"], f"{w['case']}\n".encode())
            except OSError:
                pass
        else:
            w["case"] = None

    for w in pool.ws:
        give(w)
    while any(w["case"] is not None for w in pool.ws):
        fds = {w["r"]: w for w in pool.ws if w["case"] is not None}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            w = fds[fd]
            try:
                data = os.read(fd, 1 << 20)
            except BlockingIOError:
                continue
            if not data:      # worker died
                r = R()
                r.incon = "worker process died"
                results[w["case"]] = r.out()
                pool.kill(w)
                pool.ws.remove(w)
                nw = pool.spawn()
                pool.ws.append(nw)
                give(nw)
                continue
            w["buf"] += data
            while b"\n" in w["buf"]:
                line, w["buf"] = w["buf"].split(b"\n", 1)
                i, res, lines = json.loads(line)
                REACHED.update(lines)
                results[i] = res
                give(w)
        now = time.time()
        for w in list(pool.ws):
            if w["case"] is None or now - w["t"] < check.wall_per_case / 4:
                continue
            cpu = sum(c for c in map(_cpu_of, _tree(w["pid"])) if c is not None)
            if w["cpu"] is None or cpu - w["cpu"] > 0.05:
                w["cpu"], w["cpu_t"] = cpu, now
            stuck = now - w["cpu_t"] > 45 and now - w["t"] > check.wall_per_case / 4 + 45
            if stuck or now - w["t"] > check.wall_per_case:
                r = R()
                if stuck and check.hang_key:
                    r.v(check.hang_key(cases[w["case"]]), "the run makes no progress any more: all its threads and processes have been idle for 45 s "
                        "without the run having ended")
                else:
                    r.incon = f"wall-clock watchdog ({now - w['t']:.0f} s, cpu {cpu:.1f} s)"
                results[w["case"]] = r.out()
                pool.kill(w)
                pool.ws.remove(w)
                nw = pool.spawn()
                pool.ws.append(nw)
                give(nw)
    for w in pool.ws:
        try:
            os.write(w["w"], b"q\n")
        except OSError:
            pass
    t = time.time()
    for w in pool.ws:
        while time.time() - t < 5:
            try:
                if os.waitpid(w["pid"], os.WNOHANG)[0]:
                    break
            except OSError:
                break
            time.sleep(0.01)
        else:
            pool.kill(w)
    return results, truncated


def main(check, tier, seed, replay=None, dump=None):
    t0 = time.time()
    pid = check.id
    log = lambda s: print(f"[{pid}] {s}", flush=True)
    check.setup()
    if replay:
        rec = json.load(open(replay))
        r = check.run(rec["case"]).out()
        extra = check.finish([(rec["case"], r)]).out() if rec.get("whole") else {"viol": []}
        for x in r["viol"] + extra["viol"]:
            print("REPLAY", x["key"], x["msg"], json.dumps(x["detail"]))
        hit = [x for x in r["viol"] + extra["viol"] if x["key"] == rec["key"]]
        if hit:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replay: not reproduced" if not r["viol"] else "replay: other violations")
        return 0 if not r["viol"] else 1
    cases = check.cases(seed, tier)
    log(f"tier={tier} seed={seed}: {len(cases)} cases, monitors on the real code at {os.environ.get('MEALPY_ROOT', '/repo')}")
    results, truncated = run_cases(check, cases, t0 + check.budget[tier], log)
    rec = [(cases[i], results[i]) for i in sorted(results)]
    fin = check.finish(rec).out()
    stats, sigs, samples, viols, incons, skips = Counter(), set(), [], [], [], Counter()
    for i in sorted(results):
        r = results[i]
        stats.update(r["stats"])
        sigs.update(r["sigs"])
        if r["sample"] and (len(samples) < 4 or (i % 97 == 0 and len(samples) < 8)):
            samples.append({"case": cases[i], "observed": r["sample"]})
        for x in r["viol"]:
            viols.append((i, x))
        if r["incon"]:
            incons.append((i, r["incon"]))
        if r["skip"]:
            skips[r["skip"][:60]] += 1
    for x in fin["viol"]:
        viols.append((None, x))
    stats.update(fin["stats"])
    sigs.update(fin["sigs"])
    known = load_known(pid)
    known_keys = {k for k, _ in known}
    seen_known = Counter()
    new = {}
    for i, x in viols:
        if x["key"] in known_keys:
            seen_known[x["key"]] += 1
        else:
            new.setdefault(x["key"], []).append((i, x))
    for k, what in known:
        print(f"KNOWN-FINDING: property={pid} {what} [{k}; seen {seen_known[k]}x in this run]")
    out_dir = os.path.join(ROOT, "replays")
    for n, (key, hits) in enumerate(sorted(new.items())):
        os.makedirs(out_dir, exist_ok=True)
        i, x = hits[0]
        path = os.path.join(out_dir, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80]}.json")
        json.dump({"property": pid, "key": key, "case": cases[i] if i is not None else None, "whole": i is None, "msg": x["msg"], "detail": x["detail"],
                   "hits": len(hits)}, open(path, "w"), indent=1, default=str)
        if n < 25:
            log(f"{key} ({len(hits)} cases): {x['msg']}  {json.dumps(x['detail'])[:600]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
    missing = {k: (stats[k], v) for k, v in check.floors.items() if stats[k] < (v if tier == "quick" or True else v)}
    inside = cov.function_lines()
    hit = Counter(f for f, _, n in (x.rpartition(":") for x in REACHED) if int(n) in inside.get(f, ()))
    if os.environ.get("VERIF_COV_DIR"):
        open(os.path.join(os.environ["VERIF_COV_DIR"], f"{pid}.{seed}.txt"), "w").write("\n".join(sorted(REACHED)))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check.level, "wall_s": round(time.time() - t0, 2),
          "assumptions": list(check.assumptions), "violations": len(new),
          "coverage": {"evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": check.rule, "samples": samples or [{"case": "none"}],
                       "events": dict(sorted(stats.items())), "skipped": dict(skips), "inconclusive": [t[:300] for _, t in incons[:10]],
                       "known_findings_seen": dict(seen_known),
                       "library_lines_executed": {"lines_inside_functions": sum(hit.values()), "of": sum(map(len, inside.values())),
                                                  "files_reached": len(hit), "of_files": sum(1 for v in inside.values() if v)}, "truncated": truncated, "cases_planned": len(cases)}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    if dump:
        json.dump({k: [(cases[i] if i is not None else None, x) for i, x in h] for k, h in new.items()}, open(dump, "w"), default=str)
    log(f"{len(results)} cases, {len(sigs)} distinct non-trivial, {sum(skips.values())} skipped, {len(incons)} inconclusive, "
        f"{len(new)} new violation keys, {time.time() - t0:.1f} s; events: {dict(sorted(stats.items()))}")
    if new:
        return 1
    if len(incons) > max(3, 0.02 * len(cases)):
        for i, t in incons[:5]:
            log(f"inconclusive case {json.dumps(cases[i], default=str)[:300]}: {t}")
        log("INCONCLUSIVE: too many cases without a verdict")
        return 2
    for i, t in incons[:5]:
        log(f"inconclusive case (tolerated): {t[:1500]}")
    if missing:
        log(f"INCONCLUSIVE: the deciding monitors observed too little: {missing}")
        return 2
    log("held on everything explored")
    return 0
