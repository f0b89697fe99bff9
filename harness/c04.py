"""Incremental <-> cumulative <-> tabular conversions."""
from trikit import totri
from .common import *

OUTSIDE = "missing cells inside the triangle; first-period amounts that are not positive"


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    nm = p.get("names", ("origin", "dev", "value"))
    inc = inc_rows(H, n)
    cum = cumulate(inc)
    recs = [(o[i], d[j], inc[i][j]) for i, j in cells(n)]
    df = table(recs, nm)
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2]) if nm[0] != "origin" else {}
    ct = totri(df, tri_type="cum", **kw)
    it = totri(df, tri_type="incr", **kw)
    a = ct.to_incr()
    H.frame("cum.to_incr", a, o, d, pad(inc, n))
    H.same("cum.to_incr type", type(a).__name__, "IncrTriangle")
    b = it.to_cum()
    H.frame("incr.to_cum", b, o, d, pad(cum, n))
    H.same("incr.to_cum type", type(b).__name__, "CumTriangle")
    H.frame("there and back", a.to_cum(), o, d, pad(cum, n))
    H.frame("back and there", b.to_incr(), o, d, pad(inc, n))
    for lab, t, rows in (("incr", it, inc), ("cum", ct, cum)):
        tb = t.to_tbl()
        H.same(lab + ".to_tbl columns", list(tb.columns), list(nm))
        H.same(lab + ".to_tbl index", list(tb.index), list(range(len(recs))))
        H.same(lab + ".to_tbl keys", [(int(x), int(y)) for x, y in zip(tb[nm[0]], tb[nm[1]])],
               [(r[0], r[1]) for r in recs])
        H.eqs(lab + ".to_tbl values", list(tb[nm[2]]), [rows[i][j] for i, j in cells(n)])
        tf = t.to_tbl(dropna=False)
        H.same(lab + ".to_tbl(dropna=False) keys", [(int(x), int(y)) for x, y in zip(tf[nm[0]], tf[nm[1]])],
               [(x, y) for x in o for y in d])
        H.eqs(lab + ".to_tbl(dropna=False) values", list(tf[nm[2]]), [v for r in pad(rows, n) for v in r])
    # the tabular form of a triangle is itself a description of it
    H.frame("totri(incr.to_tbl)", totri(it.to_tbl(), tri_type="cum", **kw), o, d, pad(cum, n))
    H.frame("totri(cum.to_tbl)", totri(ct.to_tbl(), tri_type="incr", data_format="cum", **kw), o, d, pad(inc, n))
    H.frame("the cumulative triangle afterwards", ct, o, d, pad(cum, n))
    H.frame("the incremental triangle afterwards", it, o, d, pad(inc, n))


def jobs(tier):
    out = []
    for n, lab, ex in [(9 if tier == "quick" else 14, "std", {}), (5, "months", {}), (5, "ordinal", {}),
                       (4, "uneven", {}), (2, "std", {}), (4, "std", {"names": ("ay", "age", "paid")})]:
        out.append({"name": "convert n=%d %s %s" % (n, lab, "custom names" if ex else ""), "fn": h,
                    "params": dict(n=n, labels=lab, **ex),
                    "bounds": "%dx%d, every real amount, positive first period" % (n, n)})
    return out
