"""Ways of selecting factors."""
import numpy as np
import pandas as pd
from .common import *

OUTSIDE = ("series that are not indexed by development period; non-positive cumulative amounts; for 5 periods and more the "
           "link ratios have one fixed order per period when an average is selected by name")


def out(r):
    s = r.summary
    return (list(r.ldfs) + [s.iloc[i, j] for i in range(s.shape[0]) for j in range(1, s.shape[1])]
            + [r.trisqrd.iloc[i, j] for i in range(r.trisqrd.shape[0]) for j in range(r.trisqrd.shape[1])])


def names(n):
    return [avg_name(k, w) for k in ("simple", "geometric", "medial", "weighted") for _, w in windows(n)]


def h_named(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n) if p["order"] is None else ordered_rows(H, n, p["order"])
    if p["order"] is None:
        for j in range(n - 1):
            x = column_ratios(f, n, j)
            for a in range(len(x)):
                for b in range(a):
                    H.assume(x[a] != x[b])
    tri, o, d = cumtri(rows, n, p["labels"])
    tail = H.pos("tail")
    av = tri.a2a_avgs()
    for name in p["names"] or names(n):
        row = [av.loc[name, x] for x in d[:-1]]
        r = tri.base_cl(sel=name, tail=tail)
        H.series("%s factors" % name, r.ldfs, d, row + [tail])
        H.eqs("%s as a list" % name, out(tri.base_cl(sel=list(row), tail=tail)), out(r))
    r = tri.base_cl(tail=tail)
    H.eqs("default", list(r.ldfs), [av.loc["all-weighted", x] for x in d[:-1]] + [tail])


def h_forms(H):
    """list, tuple, array and series of the same numbers; two tails."""
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n, p["labels"])
    vals = [H.pos("s%d" % j) for j in range(n - 1)]
    tail = H.pos("tail")
    want = out(tri.base_cl(sel=list(vals), tail=tail))
    rev = pd.Series(column(vals[::-1]), index=d[:-1][::-1])
    for nm, s in (("tuple", tuple(vals)), ("array", np.array(column(vals))), ("series", pd.Series(column(vals), index=d[:-1])),
                  ("series in another order", rev)):
        H.eqs("as a " + nm, out(tri.base_cl(sel=s, tail=tail)), want)
    one = tri.base_cl(sel=list(vals))
    H.eqs("default tail", list(one.ldfs), vals + [1])
    two = tri.base_cl(sel=list(vals), tail=tail)
    H.eqs("the tail applies once", [two.ultimate[x] for x in o], [one.ultimate[x] * tail for x in o])
    H.eqs("the tail leaves the known periods", [two.trisqrd.iloc[i, j] for i in range(n) for j in range(n)],
          [one.trisqrd.iloc[i, j] for i in range(n) for j in range(n)])


def h_wrong(H):
    """too few or too many factors are rejected"""
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n, p["labels"])
    m = H.pick("size", [k for k in range(0, n + 3) if k != n - 1])
    vals = [H.pos("s%d" % j) for j in range(m)]
    dd = (d + [d[-1] + 1, d[-1] + 2, d[-1] + 3])[:m]
    form = p["form"]
    sel = {"list": list(vals), "tuple": tuple(vals), "array": np.array(column(vals)) if m else np.array([], dtype=float),
           "series": pd.Series(column(vals), index=dd) if m else pd.Series([], dtype=float)}[form]
    H.raises("%s of %d factors" % (form, m), ValueError, lambda: tri.base_cl(sel=sel, tail=H.pos("tail")))


def jobs(tier):
    res = []
    for n, lab, order, nm in [(2, "std", None, None), (3, "std", None, None), (3, "months", None, None),
                              (3, "uneven", None, None), (4, "ordinal", 1, None), (5, "std", 2, None),
                              (7, "std", 4, ["all-medial", "weighted-3", "simple-5", "geometric-2"])]:
        res.append({"name": "named n=%d %s" % (n, lab), "fn": h_named, "params": dict(n=n, labels=lab, order=order, names=nm),
                    "bounds": "%dx%d, every positive triangle%s, every tail, %s" % (
                        n, n, "" if order is None else " with one order of the ratios per period",
                        "every named average" if nm is None else ", ".join(nm))})
    for n, lab in ((2, "std"), (4, "months"), (5, "uneven"), (7 if tier == "quick" else 10, "std"), (4, "ordinal"), (4, "quarters")):
        res.append({"name": "forms n=%d %s" % (n, lab), "fn": h_forms, "params": dict(n=n, labels=lab),
                    "bounds": "%dx%d, every positive triangle, factor and tail" % (n, n)})
    for form in ("list", "tuple", "array", "series"):
        for n, lab in ((3, "std"), (5, "months")):
            res.append({"name": "wrong size %s n=%d" % (form, n), "fn": h_wrong, "params": dict(n=n, labels=lab, form=form),
                        "bounds": "%dx%d, 0 to %d factors" % (n, n, n + 2)})
    return res
