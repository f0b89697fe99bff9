"""What an exhibit draws: recorded from stand-in axes when symbolic, read from the real figure on replay."""
import contextlib
import os
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import seaborn as sns

from .common import *


class Done(Exception):
    """the data has been handed to the drawing library."""


class Rec:
    """stands for axes, figures and artists: takes every call, remembers it."""

    def __init__(self, log=None, path=""):
        self.__dict__.update(log=[] if log is None else log, path=path, kids={})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "patches":
            return [Rec(self.log, self.path + ".patch")]
        if k in ("get_height", "get_width"):
            return lambda: 1.0
        if k == "spines":
            return {s: Rec(self.log, self.path + ".spine") for s in ("top", "bottom", "left", "right")}
        return Rec(self.log, self.path + "." + k)

    def __setattr__(self, k, v):
        pass

    def __getitem__(self, k):
        return Rec(self.log, self.path + "[%s]" % (k,))

    def __call__(self, *a, **k):
        self.log.append((self.path, a, k))
        return Rec(self.log, self.path + "()")

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def series(x):
    return [v.item() if hasattr(v, "item") and not hasattr(v, "p") else v for v in np.asarray(x, dtype=object).ravel()]


class Grid(Rec):
    """seaborn.FacetGrid: splits the data by facet and hue."""

    def __init__(self, data, *, row=None, col=None, hue=None, hue_order=None, col_order=None, dropna=False, **k):
        Rec.__init__(self)
        cols = list(col_order) if col_order is not None else list(dict.fromkeys(data[col]))
        hues = (list(hue_order) if hue_order is not None else list(dict.fromkeys(data[hue]))) if hue else [None]
        # plain numbers sort as seaborn's categorical_order does
        if col_order is None and all(isinstance(c, (int, np.integer)) for c in cols):
            cols = sorted(cols)
        self.__dict__.update(data=data, col=col, hue=hue, cols=cols, hues=hues, lines={}, stop=False,
                             axes=[Rec(self.log, "ax[%s]" % c) for c in cols])
        self.__dict__["axes_dict"] = dict(zip(cols, self.axes))
        self.__dict__["col_names"], self.__dict__["hue_names"] = cols, hues
        GRIDS.append(self)

    def map(self, func, *names, **k):
        for c in self.cols:
            for h in self.hues:
                t = self.data[self.data[self.col] == c]
                if h is not None:
                    t = t[t[self.hue] == h]
                if len(t):
                    self.lines[c, h] = list(zip(*[series(t[x].values) for x in names]))
        if STOP[0]:
            raise Done
        return self

    def map_dataframe(self, func, *names, **k):
        names = list(names) + [k[x] for x in ("x", "y") if x in k]
        return self.map(func, *names)


GRIDS, STOP = [], [False]


@contextlib.contextmanager
def recording(H, stop=False):
    """-> object with .lines after the block: {(facet, hue): [(x, y)]} of every grid, .calls of every axes."""
    got = type("Got", (), {})()
    got.lines, got.calls = {}, []
    del GRIDS[:]
    saved = [(plt, "show", plt.show), (sns, "FacetGrid", sns.FacetGrid), (plt, "subplots", plt.subplots),
             (sns, "set_context", sns.set_context)]
    real, made, root = sns.FacetGrid, [], Rec()

    class Real(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.raw = {}
            made.append(self)

        def map(self, func, *names, **k):
            if func is plt.hist:                 # the amounts binned in each facet
                for (i, j, h), t in self.facet_data():
                    if len(t):
                        self.raw[self.col_names[j], None] = list(zip(*[list(t[x].values) for x in names]))
            return super().map(func, *names, **k)

    plt.show = lambda *a, **k: None
    sns.set_context = lambda *a, **k: None
    figs = []
    if H.symbolic:
        import matplotlib.cm as cm
        saved.append((cm, "get_cmap", getattr(cm, "get_cmap", None)))
        STOP[0] = stop
        sns.FacetGrid = Grid
        plt.subplots = lambda *a, **k: (Rec(root.log, "fig"), Rec(root.log, "ax"))
    else:
        sns.FacetGrid = Real
        sub = plt.subplots
        plt.subplots = lambda *a, **k: figs.append(sub(*a, **k)) or figs[-1]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                yield got
            except Done:
                pass
        if H.symbolic:
            for g in GRIDS:
                got.lines.update(g.lines)
                got.calls += g.log
            got.calls += root.log
        else:
            for g in made:
                got.lines.update(g.raw)
                for c, ax in g.axes_dict.items():
                    for ln in ax.lines:
                        lab = ln.get_label()
                        x, y = list(ln.get_xdata()), list(ln.get_ydata())
                        if len(x) == 2 and x[0] == x[1] and y == [0, 1]:      # axvline
                            got.calls.append(("ax[%s].axvline" % c, (), {"x": x[0]}))
                            continue
                        key = (c, lab if g.hue_names and lab in list(g.hue_names) else None)
                        if x:
                            got.lines[key] = list(zip(x, y))
            for f, axs in figs:
                axs = np.atleast_1d(np.asarray(axs, dtype=object))
                for k in np.ndindex(axs.shape):
                    nm = "ax[%s]" % (k,) if axs.size > 1 else "ax"
                    for ln in axs[k].lines:
                        x, y = list(ln.get_xdata()), list(ln.get_ydata())
                        if len(x) == 2 and x[0] == x[1] and y == [0, 1]:
                            got.calls.append((nm + ".axvline", (x[0],), {}))
                            continue
                        if len(x) == 2 and y[0] == y[1] and x == [0, 1]:
                            got.calls.append((nm + ".axhline", (y[0],), {}))
                            continue
                        got.calls.append((nm + ".plot", (ln.get_xdata(), ln.get_ydata()), {"label": ln.get_label()}))
                    for s in axs[k].collections:
                        off = np.ma.filled(s.get_offsets().astype(float), np.nan)
                        got.calls.append((nm + ".scatter", (off[:, 0], off[:, 1]), {}))
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        plt.close("all")


def vlines(got, path):
    """positions of the vertical lines of one axes."""
    return [a[0] if a else k["x"] for p, a, k in got.calls if p == path + ".axvline"]


def plotted(got, path):
    """[(label, [(x, y)])] of the plot or scatter calls on one axes."""
    out = []
    for p, a, k in got.calls:
        if p == path:
            out.append((k.get("label"), list(zip(series(a[0]), series(a[1])))))
    return out
