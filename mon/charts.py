"""Reads what is on a figure at the moment it is written to a file, whoever drew it and however."""
import contextlib
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402


class Drawn:
    def __init__(self, fig, target):
        self.path = os.path.abspath(os.fspath(target))
        self.suptitle = fig._suptitle.get_text() if getattr(fig, "_suptitle", None) is not None else ""
        self.axes = []
        for ax in fig.axes:
            leg = ax.get_legend()
            self.axes.append({"lines": [(np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()) for l in ax.get_lines()],
                              "labels": [l.get_label() for l in ax.get_lines()], "colors": [l.get_color() for l in ax.get_lines()],
                              "legend": None if leg is None else [t.get_text() for t in leg.get_texts()],
                              "title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(), "visible": [bool(l.get_visible()) for l in ax.get_lines()]})

    @property
    def title(self):
        return self.suptitle or next((a["title"] for a in self.axes if a["title"]), "")


@contextlib.contextmanager
def watch(render=True):
    """Yields the list of figures written inside the block."""
    seen = []
    orig = Figure.savefig

    def savefig(self, fname, *a, **k):
        seen.append(Drawn(self, fname))
        if render:
            return orig(self, fname, *a, **k)
        open(fname, "wb").close()

    before = set(plt.get_fignums())
    Figure.savefig = savefig
    try:
        yield seen
    finally:
        Figure.savefig = orig
        for n in set(plt.get_fignums()) - before:
            seen_open.append(n)
            plt.close(n)


seen_open = []
