"""What an epoch may do to the population: the best of it, the ranks, its size."""
from . import engine as E, oracles as Q


def facts(tr):
    """(epochs, epochs after which the best so far is not in the population, epochs in which a rank got worse, sizes)"""
    c = tr.case
    mm = c["minmax"]
    better = min if mm == "min" else max
    fits = [E.fit_of(v, c.get("weights")) for _, v, _ in tr.obj.evals]
    prev = tr.init_fits if None not in tr.init_fits else None
    best, done, n = None, 0, 0
    lost, sunk, sizes = [], [], {len(tr.init_fits)}
    for e in tr.epochs:
        if "rec" not in e:
            continue
        n += 1
        for f in fits[done:e["evals_after"]]:
            best = f if best is None else better(best, f)
        done = e["evals_after"]
        now = e["fits"]
        sizes.add(len(now))
        if None in now or not now:
            prev = None
            continue
        if Q.worse(better(now), best, mm):
            lost.append((e["epoch"], better(now), best))
        if prev is not None:
            a, b = sorted(prev, reverse=mm == "max"), sorted(now, reverse=mm == "max")
            for k, (x, y) in enumerate(zip(a, b)):
                if Q.worse(y, x, mm):
                    sunk.append((e["epoch"], k, x, y))
                    break
        prev = now
    return n, lost, sunk, sizes
