"""Bootstrap runs with a stand-in generator that hands out symbolic draws."""
import contextlib
import sys

import numpy as np
import pandas as pd
import numpy.random as npr

from .common import *

Real = np.random.RandomState


class Call:
    """one request to the generator: kind, arguments per draw, draws."""

    def __init__(self, kind, args, draws):
        self.kind, self.args, self.draws = kind, args, draws


def source(H, log=None, free=None):
    """a RandomState whose draws are free inputs of the harness.

    Two generators with the same seed hand out the same inputs in the same
    order; generators of different seeds share none."""
    log = [] if log is None else log

    class Stub(Real):
        def __init__(self, seed=None):
            Real.__init__(self, 0)
            if seed is None:                     # entropy: never the same draws twice
                fresh = sum(1 for x in log if x == ("new", None))
                self.tag = "fresh%d" % fresh
            else:
                self.tag = str(seed)
            self.k, self.log = 0, log
            log.append(("new", seed))

        def _draw(self, kind, n, sign=None):
            out = []
            for _ in range(n):
                nm = "%s_%s_%d" % (kind, self.tag.replace("-", "m"), self.k)
                self.k += 1
                if free is not None and "%s_%d" % (kind, self.k - 1) not in free:
                    v = [1.25, .75, 2, .5, 1.5, 3, 1, .25][self.k % 8]      # a fixed draw
                    out.append(H.const(v if sign else (v - 1.1) * 4))
                    continue
                out.append(H.draw(nm, sign))
            return out

        def _give(self, kind, args, size, sign=None):
            shapes = [np.shape(a) for a in args]
            sh = np.broadcast_shapes(*shapes) if size is None else (size if isinstance(size, tuple) else (int(size),))
            n = int(np.prod(sh)) if sh else 1
            d = self._draw(kind, n, sign)
            flat = [[x for x in np.asarray(np.broadcast_to(np.asarray(a, dtype=object), sh or (1,))).ravel()] for a in args]
            log.append(Call(kind, flat, d))
            if not sh:
                return d[0]
            r = column(d)
            return (H.array(r)).reshape(sh)

        def choice(self, a, size=None, replace=True, p=None):
            n = 1 if size is None else int(np.prod(size))
            d = self._draw("choice", n)
            log.append(Call("choice", [list(np.asarray(a, dtype=object).ravel()), replace, p], d))
            return d[0] if size is None else H.array(column(d)).reshape(size)

        def normal(self, loc=0.0, scale=1.0, size=None):
            return self._give("normal", [loc, scale], size)

        def standard_normal(self, size=None):
            return self._give("normal", [0.0, 1.0], size)

        def gamma(self, shape, scale=1.0, size=None):
            return self._give("gamma", [shape, scale], size, ">0")

        def standard_gamma(self, shape, size=None):
            return self._give("gamma", [shape, 1.0], size, ">0")

    return Stub, log


@contextlib.contextmanager
def patched(Stub):
    """the library makes its generators with Stub while inside."""
    import trikit.estimators.bootstrap as b
    saved = [(np.random, "RandomState", np.random.RandomState)]
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("trikit") and getattr(m, "RandomState", None) is Real:
            saved.append((m, "RandomState", Real))
    for m, k, _ in saved:
        setattr(m, k, Stub)
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


def run(H, tri, seed=1, log=None, stub=None, gen=None, free=None, **kw):
    """boot_cl with an int seed whose generator hands out free inputs."""
    Stub, log = source(H, log, free) if stub is None else (stub, log)
    with patched(Stub):
        r = tri.boot_cl(random_state=seed if gen is None else gen, **kw)
    return r, log


class Quiet(Real):
    """no noise: every residual 0, every gamma draw 1."""

    def __init__(self, seed=None):
        Real.__init__(self, 0)

    def choice(self, a, size=None, replace=True, p=None):
        return np.zeros(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return np.zeros(size)

    def gamma(self, shape, scale=1.0, size=None):
        return np.ones(np.shape(shape) if size is None else size)


def quiet(tri, **kw):
    with patched(Quiet):
        return tri.boot_cl(random_state=Quiet(), **kw)


def calls(log, kind):
    return [c for c in log if isinstance(c, Call) and c.kind == kind]


FIXED = {
    "plain": lambda i, j: 100 + 17 * i + 40 * j + 3 * i * j + (5 if (i + j) % 3 == 1 else 0),
    "falling": lambda i, j: [300, 120, 60, 31, 17, 9][j] + 11 * ((i * 7 + j * 3) % 5),
    "settled": lambda i, j: [100 + 10 * i, 60 + 7 * i, 0, 0, 0, 0][j],
    "recovery": lambda i, j: [400, 150, -60, 20, -8, 3][j] + 13 * ((i * 5 + j * 2) % 4),
}


def fixed_rows(H, n, kind):
    return cumulate([[H.const(FIXED[kind](i, j)) for j in range(n - i)] for i in range(n)])


def rows_for(H, p):
    """cumulative rows of a job: free (every positive triangle) or a fixed one with free cells."""
    n = p["n"]
    if p.get("kind") == "rising":
        from .mack import partial_rows
        return scaled(H, partial_rows(H, n, p["free"], p.get("seed", n)), p)
    if p.get("kind"):
        free = p.get("free", ())
        inc = [[H.real("x%d_%d" % (i, j), sign=">0" if j == 0 else None) if (i, j) in free
                else H.const(FIXED[p["kind"]](i, j)) for j in range(n - i)] for i in range(n)]
        return scaled(H, cumulate(inc), p)
    return (ratio_rows(H, n) if p.get("order") is None else ordered_rows(H, n, p["order"]))[0]


OPT = {"opts": {"generic": True}, "ints": False}


def job(name, fn, bounds, **params):
    return dict(name=name, fn=fn, params=params, bounds=bounds, **OPT)


def sqrt(x):
    from fractions import Fraction
    return x ** Fraction(1, 2) if not isinstance(x, float) else math.sqrt(x)


def table(s, o, d):
    """sims_data row numbers by (sim, origin position, development position)."""
    io, jd = {x: i for i, x in enumerate(o)}, {x: j for j, x in enumerate(d)}
    return {(int(k), io[int(a)], jd[int(b)]): t for t, (k, a, b) in enumerate(zip(s["sim"], s["origin"], s["dev"]))}


def tri_jobs(fn, cases, what, **extra):
    """one job per (n, labels, kind, sims[, free])."""
    out = []
    for n, lab, kind, sims in cases:
        t = "%s triangle%s" % ("every positive" if kind is None else "one (%s)" % kind, " with free cells" if extra.get("free") else "")
        out.append(job("n=%d %s %s%s%s sims=%d" % (n, lab, kind or "any", " free" if extra.get("free") else "", " unit" if extra.get("unit") else "", sims), fn, "%dx%d, %s, %d simulation(s), %s" % (n, n, t, sims, what),
                       n=n, labels=lab, kind=kind, sims=sims, **extra))
        if extra.get("unit"):                  # nothing divides by an unknown: no case is set aside
            out[-1]["opts"] = {"generic": "draws" in extra, "numeric_roots": True}
            out[-1]["bounds"] = "%dx%d, one triangle (%s) in every unit, %d simulation(s), %s" % (n, n, kind, sims, what)
    return out
