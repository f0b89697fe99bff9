"""Mack runs and the formulas they are held to."""
from .common import *

INC = "4x4, every strictly increasing positive triangle"


def partial_rows(H, n, free, seed):
    """increasing triangle, free cells symbolic, the others fixed numbers."""
    r = random.Random(seed)
    rows = []
    for i in range(n):
        a = H.const(100 + r.randint(0, 60))
        row = [H.pos("c%d" % i) * 10 if (i, 0) in free else a]
        for j in range(1, n - i):
            den = 4 * j * j
            g = H.pos("g%d_%d" % (i, j)) if (i, j) in free else H.const(Frac(r.randint(3, 40), den))
            row.append(row[-1] * (1 + g))
        rows.append(row)
    return rows


def Frac(a, b):
    return round(a / b * 64) / 64 or 1 / 64      # exactly representable


def weights(rows, n, j, alpha, ind=None):
    return [(rows[i][j] ** alpha if alpha else 1) for i in range(n - 1 - j) if ind is None or ind[i][j]]


def ratios(rows, n, j, ind=None):
    return [rows[i][j + 1] / rows[i][j] for i in range(n - 1 - j) if ind is None or ind[i][j]]


def run(H, p, **kw):
    """(rows, tri, origins, devs, result)"""
    n = p["n"]
    if p.get("free") is not None:
        rows = scaled(H, partial_rows(H, n, p["free"], p.get("seed", 5)), p)
    else:
        rows, _ = ratio_rows(H, n, g=True)
    tri, o, d = cumtri(rows, n, p["labels"])
    kw.setdefault("dist", "norm")
    kw.setdefault("q", .75)
    for i, j in p.get("excl", ()):
        tri.a2aind = (o[i], d[j], 0)
    return rows, tri, o, d, tri.mack_cl(alpha=p["alpha"], **kw)


def indicator(n, p):
    return [[0 if (i, j) in p.get("excl", ()) else 1 for j in range(n - 1 - i)] for i in range(n - 1)]


def jobs_for(fn, tier, excl=False):
    out = []
    for al, lab in ((0, "months"), (1, "std"), (2, "ordinal")):
        out.append({"name": "n=4 alpha=%d %s" % (al, lab), "fn": fn, "params": dict(n=4, alpha=al, labels=lab),
                    "opts": {"generic": True}, "ints": False, "bounds": INC})
    frees = [(5, [(0, 1), (4, 0)], "std"), (5, [(2, 2), (1, 0)], "uneven"), (6, [(3, 1), (5, 0)], "std"),
             (7, [(0, 6), (4, 2)], "months")]
    if tier == "thorough":
        frees += [(8, [(2, 4), (6, 1)], "std"), (10, [(5, 1), (9, 0)], "std"), (6, [(0, 1), (1, 1), (2, 1)], "ordinal")]
    for n, free, lab in frees:
        for al in (0, 1, 2):
            out.append({"name": "n=%d alpha=%d %s, free cells %s" % (n, al, lab, free), "fn": fn,
                        "params": dict(n=n, alpha=al, labels=lab, free=free, seed=n + al), "opts": {"generic": True}, "ints": False,
                        "bounds": "%dx%d, fixed increasing triangle with cells %s free (strictly increasing)" % (n, n, free)})
    for n, al, lab in ((4, 0, "quarters"), (4, 1, "months"), (10, 1, "std"), (6, 2, "uneven"), (7, 0, "ordinal"), (8, 2, "std")):
        out.append({"name": "any unit n=%d alpha=%d %s" % (n, al, lab), "fn": fn,
                    "params": dict(n=n, alpha=al, labels=lab, free=[], seed=n + al, unit=True), "opts": {"generic": False}, "ints": False,
                    "bounds": "%dx%d, a fixed increasing triangle in every unit" % (n, n)})
    return out
