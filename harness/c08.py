"""Descriptions of a triangle: latest diagonal, maturities, masks, counts."""
from trikit import totri
from .common import *

OUTSIDE = "triangles with more origins than development periods or the reverse"


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    nm = p.get("names", ("origin", "dev", "value"))
    inc = inc_rows(H, n)
    rows = cumulate(inc) if p["type"] == "cum" else inc
    recs = [(o[i], d[j], inc[i][j]) for i, j in cells(n)]
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2]) if nm[0] != "origin" else {}
    tri = totri(table(recs, nm), tri_type=p["type"], **kw)
    last = [rows[i][n - 1 - i] for i in range(n)]
    for k in range(2):                       # properties are cached: ask twice
        t = " (%d)" % k
        la = tri.latest
        H.same("latest columns" + t, list(la.columns), ["origin", "dev", "latest"])
        H.same("latest index" + t, list(la.index), list(range(n)))
        H.same("latest origin" + t, [int(x) for x in la["origin"]], o)
        H.same("latest dev" + t, [int(x) for x in la["dev"]], d[::-1])
        H.eqs("latest values" + t, list(la["latest"]), last)
        H.series("latest_by_origin" + t, tri.latest_by_origin, o, last)
        H.series("latest_by_devp" + t, tri.latest_by_devp, d, last[::-1])
        H.same("maturity" + t, [list(tri.maturity.index), [int(x) for x in tri.maturity]], [o, d[::-1]])
        H.same("rlvi" + t, [list(tri.rlvi.index), [int(x) for x in tri.rlvi["dev"]],
                            [int(x) for x in tri.rlvi["col_offset"]]], [o, d[::-1], list(range(n))[::-1]])
        H.same("clvi" + t, [list(tri.clvi.index), [int(x) for x in tri.clvi["origin"]],
                            [int(x) for x in tri.clvi["row_offset"]]], [d, o[::-1], list(range(n))[::-1]])
        H.same("triind" + t, [[int(tri.triind.iloc[i, j]) for j in range(n)] for i in range(n)],
               [[0 if j < n - i else 1 for j in range(n)] for i in range(n)])
        H.same("triind labels" + t, [list(tri.triind.index), list(tri.triind.columns)], [o, d])
        H.same("nbr_cells" + t, int(tri.nbr_cells), n * (n + 1) // 2)
        H.same("devp" + t, [list(tri.devp.index), [int(x) for x in tri.devp]], [list(range(n)), d])
        H.same("origins" + t, [list(tri.origins.index), [int(x) for x in tri.origins]], [list(range(n)), o])


def h_gap(H):
    """an incremental triangle with a missing cell away from the diagonal"""
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    gaps = H.pick("gaps", [(c,) for c in cells(n) if 0 < c[1] < n - c[0] - 1])
    inc = [[nan if (i, j) in gaps else H.real("x%d_%d" % (i, j), sign=">0" if j == 0 else None)
            for j in range(n - i)] for i in range(n)]
    recs = [(o[i], d[j], inc[i][j]) for i, j in cells(n) if not isnan(inc[i][j])]
    tri = totri(table(recs), tri_type="incr")
    last = [inc[i][n - 1 - i] for i in range(n)]
    H.same("nbr_cells", int(tri.nbr_cells), n * (n + 1) // 2 - len(gaps))
    H.series("latest_by_origin", tri.latest_by_origin, o, last)
    H.same("maturity", [list(tri.maturity.index), [int(x) for x in tri.maturity]], [o, d[::-1]])
    H.same("triind", [[int(tri.triind.iloc[i, j]) for j in range(n)] for i in range(n)],
           [[0 if j < n - i else 1 for j in range(n)] for i in range(n)])
    tb = tri.to_tbl()
    H.same("to_tbl keys", [(int(a), int(b)) for a, b in zip(tb["origin"], tb["dev"])],
           [(r[0], r[1]) for r in recs])
    H.eqs("to_tbl values", list(tb["value"]), [r[2] for r in recs])


def jobs(tier):
    out = []
    for tt in ("cum", "incr"):
        for n, lab, ex in [(8 if tier == "quick" else 14, "std", {}), (5, "months", {}), (5, "ordinal", {}),
                           (4, "uneven", {}), (2, "std", {}), (4, "std", {"names": ("ay", "age", "paid")})]:
            out.append({"name": "%s n=%d %s %s" % (tt, n, lab, "custom names" if ex else ""), "fn": h,
                        "params": dict(n=n, labels=lab, type=tt, **ex),
                        "bounds": "%dx%d, every real amount, positive first period" % (n, n)})
    for n, lab in ((4, "std"), (5, "months")):
        out.append({"name": "gap n=%d %s" % (n, lab), "fn": h_gap, "params": dict(n=n, labels=lab),
                    "bounds": "%dx%d, each single inner cell missing" % (n, n)})
    return out
