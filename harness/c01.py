"""Incremental triangle from tabular records."""
from trikit import totri
from .common import *

OUTSIDE = "records with a missing amount; non-numeric labels; more than %s records per cell" % 3


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    recs, want = [], []
    for i in range(n):
        row = []
        for j in range(n - i):
            k = p["dup"](i, j)
            parts = [H.real("x%d_%d_%d" % (i, j, t)) for t in range(k)]
            if not parts:
                row.append(nan)
                continue
            for t in parts:
                recs.append((o[i], d[j], t))
            s = total(parts)
            if j == 0:
                H.assume(s > 0)
            row.append(s)
        want.append(row)
    od = orders(len(recs), p["n"])
    order = od[H.pick("order", list(od))]
    idx = None
    if p.get("index"):
        idx = [("k%d" % (k % 3)) for k in range(len(recs))] if p["index"] == "dup" else \
            list(range(5, 5 + 7 * len(recs), 7))[::-1]
    nm = p.get("names", ("origin", "dev", "value"))
    df = table(recs, nm, order, idx, p.get("extra", False))
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2]) if nm[0] != "origin" else {}
    tri = totri(df, tri_type="incr", data_format=p.get("fmt", "incr"), data_shape="tabular", **kw)
    H.frame("incr", tri, o, d, pad(want, n))
    H.same("type", type(tri).__name__, "IncrTriangle")
    H.same("names", [tri.origin, tri.dev, tri.value], list(nm))


def jobs(tier):
    one = lambda i, j: 1
    mix = lambda i, j: 1 + (i + 2 * j) % 3
    gap = lambda i, j: 0 if (i, j) == (0, 1) else 1 + (i == 1)
    cust = ("ay", "age", "paid")
    out = []
    big = 10 if tier == "quick" else 16
    for n, lab, dup, dn, extra in [
            (big, "std", one, "one", {}), (6, "months", mix, "1-3", {}), (5, "ordinal", mix, "1-3", {}),
            (5, "uneven", mix, "1-3", {"names": cust}), (4, "std", gap, "gap", {}), (2, "std", mix, "1-3", {}),
            (1, "std", one, "one", {}),
            (5, "std", mix, "1-3", {"extra": True, "index": "gap"}),
            (4, "months", mix, "1-3", {"names": cust, "extra": True, "index": "dup"})]:
        out.append({"name": "incr n=%d %s records/cell=%s%s" % (n, lab, dn, "".join(" " + k for k in extra)),
                    "fn": h, "params": dict(n=n, labels=lab, dup=dup, **extra),
                    "bounds": "%dx%d, every real amount with positive first-period totals, 5 record orders" % (n, n)})
    return out
