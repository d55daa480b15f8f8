"""Mutation runs: small edits of the original lines of the optimizers, judged by all checks restricted to the optimizers concerned.  Not used by any check.
usage: mutate.py cache | mutate.py run SEED N OUT [slots] | mutate.py eval FILE CLASS (internal)"""
import ast, collections, importlib, json, os, pickle, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/mut"
BASE = "^c8f8a53"
ORDER = "C04 C01 C08 C29 C30 C31 C28 C17 C19 C05 C15 C14 C02 C03 C09 C07 C18 C06 C13 C32 C16 C23 C24 C25 C27 C21".split()
CAP = {"C05": 6, "C06": 3, "C21": 1, "C27": 1, "C24": 2, "C23": 3, "C18": 30, "C17": 30, "C25": 2}
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")


def cache():
    sys.path[:0] = ["/repo", ROOT]
    out = {}
    for c in ORDER:
        ch = importlib.import_module(f"checks.{c.lower()}").CHECK
        ch.setup()
        d = collections.defaultdict(list)
        for x in ch.cases(1, "quick"):
            if isinstance(x.get("algo"), str):
                d[x["algo"]].append(x)
        out[c] = dict(d)
        print(c, sum(map(len, d.values())))
    pickle.dump(out, open(W + "/cases.pkl", "wb"))


def sites():
    """(file, line, column span, new text, kind) on original lines inside methods."""
    import glob
    out = []
    for f in sorted(glob.glob("/repo/mealpy/*_based/*.py")):
        rel = f[len("/repo/"):]
        src = open(f).read().split("\n")
        blame = subprocess.run(["git", "blame", "-s", rel], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        tree = ast.parse("\n".join(src))
        for cls in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
            for fn in [n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name not in ("__init__",)]:
                body = fn.body
                if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
                    body = body[1:]
                if not body:
                    continue
                for ln in range(body[0].lineno, fn.end_lineno + 1):
                    if ln > len(blame) or not blame[ln - 1].startswith(BASE) or src[ln - 1].strip().startswith("#"):
                        continue
                    t = src[ln - 1].split("  #")[0]
                    for pat, new, kind in PATS:
                        for m in re.finditer(pat, t):
                            s = m.expand(new) if isinstance(new, str) else new(m)
                            if s is not None and s != m.group(0):
                                out.append((rel, cls.name, ln, m.start(), m.end(), s, kind))
    return out


def swap_args(m):
    a = m.group(2).split(", ")
    if len(a) < 2 or any(x.count("(") != x.count(")") for x in a):
        return None
    return m.group(1) + ", ".join([a[1], a[0]] + a[2:]) + ")"


PATS = [
    (r"\.copy\(\)", "", "drop-copy"),
    (r"range\(0, self\.pop_size\)", "range(0, self.pop_size - 1)", "last-agent"),
    (r"range\(self\.pop_size\)", "range(self.pop_size - 1)", "last-agent"),
    (r"range\(0, self\.problem\.n_dims\)", "range(0, self.problem.n_dims - 1)", "last-variable"),
    (r"range\(self\.problem\.n_dims\)", "range(self.problem.n_dims - 1)", "last-variable"),
    (r"range\(0, ", "range(1, ", "range-start"),
    (r" < ", " > ", "less-greater"), (r" > ", " < ", "greater-less"), (r" <= ", " < ", "le-lt"), (r" < ", " <= ", "lt-le"), (r" >= ", " > ", "ge-gt"), (r" == ", " != ", "eq-ne"),
    (r"(self\.compare_target\()([^)]*)\)", swap_args, "swap-compare"),
    (r"(self\.get_better_agent\()([^)]*)\)", swap_args, "swap-better"),
    (r"(self\.greedy_selection_population\()([^)]*)\)", swap_args, "swap-greedy"),
    (r"self\.correct_solution\((\w+)\)", r"\1", "no-correct"),
    (r"self\.problem\.minmax", '"min"', "min-only"),
    (r"self\.g_best", "self.pop[0]", "gbest-first"),
    (r"self\.generator\.random\(\)", "np.random.random()", "global-rng"),
    (r"self\.generator\.random\(self\.problem\.n_dims\)", "self.generator.random()", "scalar-random"),
    (r"self\.update_target_for_population\((\w+)\)", r"\1", "no-update"),
    (r"self\.generate_agent\(", "self.generate_empty_agent(", "no-target"),
    (r"self\.get_target\((\w+)\)", r"self.get_target(\1, counted=False)", "uncounted"),
    (r"self\.get_target\((\w+)\)", r"self.problem.get_target(\1)", "uncounted"),
    (r"not in self\.AVAILABLE_MODES", "in self.AVAILABLE_MODES", "mode-flip"),
    (r"\bself\.pop_size\b", "len(self.pop) // 2", "half-pop"),
    (r"epoch / self\.epoch", "epoch // self.epoch", "floor-schedule"),
    (r"epoch / self\.epoch", "epoch / 10", "abs-schedule"),
    (r"self\.problem\.ub", "self.problem.lb", "ub-lb"),
    (r"(?<=[\w\)\]]) \+ (?=[\w\(\[])", " - ", "plus-minus"), (r"(?<=[\w\)\]]) - (?=[\w\(\[])", " + ", "minus-plus"),
    (r"(?<=[\w\)\]]) \* (?=[\w\(\[])", " / ", "times-div"),
    (r"agent\b", "self.pop[idx]", "agent-pop"),
    (r"np\.where\((.+?), (\w+), ([\w\.\[\]]+)\)", r"np.where(\1, \3, \2)", "where-swap"),
    (r"sort_flag = False", "sort_flag = True", "sort"),
    (r"n_best=(\w+)", r"n_best=\1 + 1", "best-plus"),
    (r"\bepoch\b(?= [%/*])", "(epoch - 1)", "epoch-1"),
]


def evaluate(mod, cls):
    root = os.environ["MEALPY_ROOT"]
    sys.path[:0] = [root, ROOT]
    cases = pickle.load(open(W + "/cases.pkl", "rb"))
    from mon import engine as E
    algos = [a for a, c in E.ALL.items() if any(k.__name__ == cls and k.__module__ == mod for k in c.__mro__)]
    random.Random(0).shuffle(algos)
    algos = sorted(algos[:3])
    if not algos:
        print("RESULT none no-algo")
        return
    from mon.core import load_known
    t0 = time.time()
    for c in ORDER:
        ch = importlib.import_module(f"checks.{c.lower()}").CHECK
        known = {k for k, _ in load_known(c)}
        for a in algos:
            for x in cases[c].get(a, [])[:CAP.get(c, 20)]:
                if time.time() - t0 > 240:
                    print(f"RESULT timeout {c}")
                    return
                try:
                    r = ch.run(x)
                except BaseException as e:
                    continue
                for v in r.viol:
                    if v["key"] not in known:
                        print(f"RESULT caught {c} {v['key']} :: {v['msg'][:160]!r}")
                        return
    print("RESULT survived " + ",".join(algos))


def run(seed, n, out, slots=7):
    all_sites = sites()
    by = collections.defaultdict(list)
    for s in all_sites:
        by[s[6]].append(s)
    rnd = random.Random(seed)
    pick = []
    kinds = sorted(by)
    for i in range(n):
        k = kinds[i % len(kinds)]
        pick.append(rnd.choice(by[k]))
    print(len(all_sites), {k: len(v) for k, v in by.items()}, flush=True)
    procs = {}
    for i in range(slots):
        d = f"{W}/r{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d])
    todo, free = pick[::-1], list(range(slots))
    fo = open(out, "a")
    while todo or procs:
        while todo and free:
            s = todo.pop()
            i = free.pop()
            d = f"{W}/r{i}"
            f = f"{d}/{s[0]}"
            L = open(f"/repo/{s[0]}").read().split("\n")
            L[s[2] - 1] = L[s[2] - 1][:s[3]] + s[5] + L[s[2] - 1][s[4]:]
            open(f, "w").write("\n".join(L))
            mod = s[0][:-3].replace("/", ".")
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "eval", mod, s[1]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=W,
                                 env=dict(ENV, MEALPY_ROOT=d, PYTHONPATH=f"{d}:{ROOT}"), start_new_session=True)
            procs[i] = (p, s, L[s[2] - 1].strip(), time.time())
        time.sleep(0.3)
        for i, (p, s, line, t) in list(procs.items()):
            if p.poll() is None and time.time() - t < 400:
                continue
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o = p.stdout.read() if p.poll() is not None else "RESULT hung"
            res = [l for l in o.splitlines() if l.startswith("RESULT")]
            fo.write(f"{(res[-1] if res else 'RESULT dead')[7:]} | {s[6]} {s[0]}:{s[2]} {s[1]} | {line}\n")
            fo.flush()
            shutil.copy(f"/repo/{s[0]}", f"{W}/r{i}/{s[0]}")
            del procs[i]
            free.append(i)
    for i in range(slots):
        shutil.rmtree(f"{W}/r{i}", ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "cache":
        cache()
    elif sys.argv[1] == "eval":
        evaluate(sys.argv[2], sys.argv[3])
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], *map(int, sys.argv[5:6]))
