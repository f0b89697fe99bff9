"""Cumulative triangle from tabular incremental records."""
from trikit import totri
from .common import *

OUTSIDE = "records with a missing amount; missing cells (C06); non-positive first-period totals (C05)"


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    recs, inc = [], []
    for i in range(n):
        row = []
        for j in range(n - i):
            parts = [H.real("x%d_%d_%d" % (i, j, t)) for t in range(p["dup"](i, j))]
            recs += [(o[i], d[j], t) for t in parts]
            s = total(parts)
            if j == 0:
                H.assume(s > 0)
            row.append(s)
        inc.append(row)
    od = orders(len(recs), p["n"] + 1)
    order = od[H.pick("order", list(od))]
    idx = list(range(len(recs) * 3, len(recs) * 2, -1)) if p.get("index") else None
    nm = p.get("names", ("origin", "dev", "value"))
    df = table(recs, nm, order, idx, p.get("extra", False))
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2]) if nm[0] != "origin" else {}
    tri = totri(df, tri_type=p.get("type", "cum"), **kw)
    H.frame("cum", tri, o, d, pad(cumulate(inc), n))
    H.same("type", type(tri).__name__, "CumTriangle")


def jobs(tier):
    one = lambda i, j: 1
    mix = lambda i, j: 1 + (2 * i + j) % 3
    cust = ("ay", "age", "paid")
    out = []
    for n, lab, dup, dn, extra in [
            (10 if tier == "quick" else 15, "std", one, "1", {}), (6, "months", mix, "1-3", {}),
            (5, "ordinal", mix, "1-3", {}), (5, "uneven", mix, "1-3", {"names": cust}),
            (2, "std", mix, "1-3", {}), (5, "std", mix, "1-3", {"extra": True, "index": True}),
            (4, "months", mix, "1-3", {"names": cust, "extra": True, "index": True})]:
        out.append({"name": "cum n=%d %s records/cell=%s%s" % (n, lab, dn, "".join(" " + k for k in extra)),
                    "fn": h, "params": dict(n=n, labels=lab, dup=dup, **extra),
                    "bounds": "%dx%d, every real amount with positive first-period totals, 5 record orders" % (n, n)})
    return out
