"""Which lines of the library did the observed executions reach?  (sys.monitoring, one event per line and worker)

It is evidence about the workload only, nothing is judged by it."""
import os
import sys

ROOT = os.path.join(os.path.realpath(os.environ.get("MEALPY_ROOT", "/repo")), "mealpy") + os.sep
TOOL = 4
_new = []


def start():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    try:
        mon.use_tool_id(TOOL, "verif-lines")
    except ValueError:
        return

    def line(code, number):
        f = code.co_filename
        if f.startswith(ROOT):
            _new.append(f"{f[len(ROOT):]}:{number}")
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)


def take():
    out = list(_new)
    _new.clear()
    return out


def function_lines():
    """{file: lines inside functions} of the library"""
    out = {}
    for d, _, fs in os.walk(ROOT):
        for f in fs:
            if f.endswith(".py"):
                path = os.path.join(d, f)
                try:
                    top = compile(open(path, encoding="utf-8").read(), path, "exec")
                except (SyntaxError, OSError):
                    continue
                lines, todo = set(), [(top, False)]
                while todo:
                    co, inside = todo.pop()
                    inside = inside or bool(co.co_flags & 2)       # CO_NEWLOCALS: a function, not a module or class body
                    if inside:
                        lines |= {n for _, _, n in co.co_lines() if n and n != co.co_firstlineno}
                    todo += [(c, inside) for c in co.co_consts if hasattr(c, "co_code")]
                out[path[len(ROOT):]] = lines
    return out
