"""Simple, geometric and volume-weighted averages of link ratios."""
from fractions import Fraction
from .common import *

OUTSIDE = "non-positive cumulative amounts; for more than 4 periods the link ratios of a period have one of two fixed orders"


def root_k(x, k):
    return x ** (Fraction(1, k) if not isinstance(x, float) else 1.0 / k) if k > 1 else x


def h(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n) if p["order"] is None else ordered_rows(H, n, p["order"])
    tri, o, d = cumtri(rows, n, p["labels"])
    av = tri.a2a_avgs()
    H.same("columns", list(av.columns), d[:-1])
    names = [avg_name(kind, k) for kind in ("simple", "geometric", "medial", "weighted") for _, k in windows(n)]
    H.same("rows", sorted(av.index), sorted(names))
    for _, k in windows(n):
        for j in range(n - 1):
            x = last(column_ratios(f, n, j), k)
            idx = last(list(range(n - 1 - j)), k)
            H.eq("simple-%d[%s]" % (k, d[j]), av.loc[avg_name("simple", k), d[j]], mean(x))
            H.eq("geometric-%d[%s]" % (k, d[j]), av.loc[avg_name("geometric", k), d[j]], root_k(prod(x), len(x)))
            H.eq("weighted-%d[%s]" % (k, d[j]), av.loc[avg_name("weighted", k), d[j]], wmean(rows, n, j, idx))
    if p["order"] is None:
        # the chain ladder uses these rows
        for k in ((0, 1) if n > 2 else (0,)):
            r = tri.base_cl(sel=avg_name("weighted", k))
            H.eqs("factors weighted-%d" % k, list(r.ldfs),
                  [wmean(rows, n, j, last(list(range(n - 1 - j)), k)) for j in range(n - 1)] + [1])


def jobs(tier):
    out = []
    for n, lab, order in [(2, "std", None), (3, "std", None), (4, "std", None), (4, "months", None), (4, "uneven", None),
                          (6, "std", 1), (6, "ordinal", 2), (8 if tier == "quick" else 11, "std", 3)]:
        out.append({"name": "averages n=%d %s%s" % (n, lab, "" if order is None else " order %d" % order), "fn": h,
                    "params": dict(n=n, labels=lab, order=order),
                    "bounds": "%dx%d, every positive triangle%s" % (n, n, "" if order is None else
                                                                   " with one order of the link ratios per period")})
    if tier == "thorough":
        out.append({"name": "averages n=5 std", "fn": h, "params": dict(n=5, labels="std", order=None),
                    "bounds": "5x5, every positive triangle"})
    return out
