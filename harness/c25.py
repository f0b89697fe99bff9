"""Fitted triangles of the bootstrap."""
from .common import *
from . import boot

OUTSIDE = ("triangles with more origins than development periods or the reverse; more than 4 periods except fixed triangles "
           "with free cells")


def h(H):
    p = H.params
    n = p["n"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r = boot.quiet(tri, sims=1, q=.5)
    ld = [wmean(rows, n, j, range(n - 1 - j)) for j in range(n - 1)]
    H.series("factors", r.ldfs, d, ld + [1])
    fit = []
    for i in range(n):
        row = [rows[i][-1]]
        for j in range(n - 2 - i, -1, -1):
            row.insert(0, row[0] / r.ldfs.iloc[j])
        fit.append(row)
    inc = [[row[0]] + [row[j] - row[j - 1] for j in range(1, len(row))] for row in fit]
    H.frame("fitted cumulative", r.fitted_tri_cum, o, d, pad(fit, n))
    H.frame("fitted incremental", r.fitted_tri_incr, o, d, pad(inc, n))
    for i in range(n):
        H.eq("increments of %s sum to the latest amount" % o[i],
             total([r.fitted_tri_incr.iloc[i, j] for j in range(n - i)]), rows[i][-1])
    H.frame("triangle", tri, o, d, pad(rows, n))


def jobs(tier):
    out = []
    for n, lab, order in [(2, "std", None), (3, "std", None), (3, "months", None), (4, "ordinal", 1), (4, "uneven", 2)]:
        out.append(boot.job("n=%d %s" % (n, lab), h, "%dx%d, every positive triangle%s" % (
            n, n, "" if order is None else " with one order of the link ratios per period"), n=n, labels=lab, order=order))
    for n, lab, kind, free in [(6, "std", "recovery", [(1, 2)]), (6, "months", "falling", [(2, 1)]),
                               (5, "uneven", "plain", [(3, 0)]), (5, "std", "rising", [(0, 1), (2, 2), (4, 0)]),
                               (8, "months", "rising", [(3, 2), (0, 5)])]:
        out.append(boot.job("n=%d %s %s" % (n, lab, kind), h, "%dx%d, a fixed triangle with free increments at %s" % (n, n, free),
                            n=n, labels=lab, kind=kind, free=free))
    for n, lab, kind in [(4, "quarters", "plain"), (5, "uneven", "recovery"), (6, "std", "falling")]:
        out += boot.tri_jobs(h, [(n, lab, kind, 1)], "", unit=True)
    for n, lab in [(8, "months"), (10, "ordinal")]:
        out += boot.tri_jobs(h, [(n, lab, "rising", 1)], "", unit=True, free=[])
    return out
