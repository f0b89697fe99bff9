"""The chain ladder summary."""
import numpy as np
import pandas as pd
from .common import *

OUTSIDE = "non-positive cumulative amounts and factors; triangles with more origins than development periods or the reverse"


def select(H, p, d, n):
    """a numeric selection and the factors it stands for."""
    vals = [H.pos("sel%d" % j) for j in range(n - 1)]
    k = p["sel"]
    if k == "series":
        return pd.Series(column(vals), index=d[:-1]), vals
    if k == "array":
        return np.array(column(vals)), vals
    if k == "tuple":
        return tuple(vals), vals
    return list(vals), vals


def h(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n, p["labels"])
    if p["sel"] in ("list", "series", "array", "tuple"):
        sel, vals = select(H, p, d, n)
    else:
        sel = p["sel"]
        vals = [tri.a2a_avgs().loc[sel, x] for x in d[:-1]]
    kw = {}
    tail = 1
    if p["tail"]:
        tail = kw["tail"] = H.pos("tail")
    if p["sel"] != "all-weighted" or not p.get("default"):
        kw["sel"] = sel
    r = tri.base_cl(**kw)
    H.series("ldfs", r.ldfs, d, vals + [tail])
    s = r.summary
    H.same("columns", list(s.columns), ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve"])
    H.same("index", [x if isinstance(x, str) else int(x) for x in s.index], o + ["total"])
    H.same("maturity", list(s["maturity"]), [str(x) for x in d[::-1]] + [""])
    lat = [rows[i][-1] for i in range(n)]
    cld = [prod(vals[n - 1 - i:]) * tail for i in range(n)]
    ult = [lat[i] * cld[i] for i in range(n)]
    res = [ult[i] - lat[i] for i in range(n)]
    H.eqs("cldf", list(s["cldf"]), cld + [nan])
    H.eqs("emergence", list(s["emergence"]), [1 / x for x in cld] + [nan])
    H.eqs("latest", list(s["latest"]), lat + [total(lat)])
    H.eqs("ultimate", list(s["ultimate"]), ult + [total(ult)])
    H.eqs("reserve", list(s["reserve"]), res + [total(res)])
    for nm in ("emergence", "ultimate", "reserve", "latest"):
        H.eqs("attribute " + nm, list(getattr(r, nm)), list(s[nm]))
    H.eqs("attribute cldfs", list(r.cldfs), cld + [nan])


def jobs(tier):
    out = []
    big = 8 if tier == "quick" else 12
    for n, lab, sel, tail in [(big, "std", "list", True), (2, "std", "list", True), (5, "months", "array", True),
                              (5, "ordinal", "series", True), (4, "uneven", "tuple", True), (5, "uneven", "series", False),
                              (4, "std", "all-weighted", True), (4, "quarters", "list", True), (3, "quarters", "all-weighted", True), (3, "months", "all-weighted", False),
                              (3, "ordinal", "simple-1", True), (3, "uneven", "all-geometric", True),
                              (2, "months", "all-simple", False)]:
        out.append({"name": "n=%d %s sel=%s%s" % (n, lab, sel, " tail" if tail else ""), "fn": h,
                    "params": dict(n=n, labels=lab, sel=sel, tail=tail, default=not tail),
                    "bounds": "%dx%d, every positive triangle%s%s" % (n, n, ", every positive factor" if sel in ("list", "array", "series", "tuple") else "",
                                                                     ", every positive tail" if tail else "")})
    return out
