"""The medial average."""
from .common import *

OUTSIDE = "tied extremes (partly equal link ratios in one period); other periods' ratios have a fixed order when n > 4"


def medial(x):
    if len(x) <= 2:
        return mean(x)
    lo, hi = x[0], x[0]
    for v in x[1:]:
        if v < lo:
            lo = v
        if v > hi:
            hi = v
    return (total(x) - lo - hi) / (len(x) - 2)


def h(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n) if p["free"] is None else ordered_rows(H, n, 5, p["free"])
    for j in range(n - 1):
        if p["free"] is None or j in p["free"]:
            x = column_ratios(f, n, j)
            for a in range(len(x)):
                for b in range(a):
                    H.assume(x[a] != x[b])
    tri, o, d = cumtri(rows, n, p["labels"])
    av = tri.a2a_avgs()
    for _, k in windows(n):
        for j in range(n - 1):
            x = last(column_ratios(f, n, j), k)
            a = av.loc[avg_name("medial", k), d[j]]
            H.eq("medial-%d[%s]" % (k, d[j]), a, medial(x))
            if p["free"] is not None and j not in p["free"]:
                continue
            lo, hi = x[0], x[0]
            for v in x[1:]:
                lo, hi = (v if v < lo else lo), (v if v > hi else hi)
            H.le("medial-%d[%s] is in range" % (k, d[j]), lo, a)
            H.le("medial-%d[%s] is in range above" % (k, d[j]), a, hi)
    if n <= 4:
        r = tri.base_cl(sel="all-medial")
        H.eqs("factors all-medial", list(r.ldfs), [medial(column_ratios(f, n, j)) for j in range(n - 1)] + [1])


def h_equal(H):
    """every ratio of a period equal: that is the average."""
    n = H.params["n"]
    f = [H.pos("f%d" % j) for j in range(n - 1)]
    rows = []
    for i in range(n):
        r = [H.pos("c%d" % i)]
        for j in range(n - i - 1):
            r.append(r[-1] * f[j])
        rows.append(r)
    tri, o, d = cumtri(rows, n)
    av = tri.a2a_avgs()
    for _, k in windows(n):
        for kind in ("medial", "simple", "weighted", "geometric"):
            H.eqs(avg_name(kind, k), [av.loc[avg_name(kind, k), x] for x in d[:-1]], f)


def jobs(tier):
    out = [{"name": "medial n=%d %s%s" % (n, lab, "" if fr is None else " free period %d" % fr[0]), "fn": h,
            "params": dict(n=n, labels=lab, free=fr),
            "bounds": "%dx%d, every positive triangle with distinct ratios%s" % (n, n, "" if fr is None else
                      " (every order in one period, one order in the others)")}
           for n, lab, fr in [(3, "std", None), (4, "std", None), (4, "months", None), (5, "std", [0]), (6, "std", [1]),
                              (6, "uneven", [2])] + ([(5, "std", None), (6, "std", [0])] if tier == "thorough" else [])]
    out.append({"name": "equal ratios n=5", "fn": h_equal, "params": dict(n=5),
                "bounds": "5x5, every positive triangle with constant factors"})
    return out
