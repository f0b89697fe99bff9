"""Diagonals."""
from trikit import totri
from .common import *

OUTSIDE = "positive offsets; triangles that are not square"


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    nm = p.get("names", ("origin", "dev", "value"))
    inc = inc_rows(H, n)
    rows = cumulate(inc) if p["type"] == "cum" else inc
    recs = [(o[i], d[j], inc[i][j]) for i, j in cells(n)]
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2]) if nm[0] != "origin" else {}
    tri = totri(table(recs, nm), tri_type=p["type"], **kw)
    offs = H.pick("order", [list(range(n)), list(range(n))[::-1]])
    for k in offs:
        g = tri.diagonal(-k)
        H.same("diagonal(-%d) columns" % k, list(g.columns), ["origin", "dev", "value"])
        H.same("diagonal(-%d) keys" % k, [(int(a), int(b)) for a, b in zip(g["origin"], g["dev"])],
               [(o[i], d[n - 1 - i - k]) for i in range(n - k)])
        H.eqs("diagonal(-%d) values" % k, list(g["value"]), [rows[i][n - 1 - i - k] for i in range(n - k)])
    g = tri.diagonal()
    H.eqs("diagonal()", list(g["value"]), [rows[i][n - 1 - i] for i in range(n)])
    H.eqs("diagonal(0) is latest", list(g["value"]), list(tri.latest["latest"]))
    H.raises("offset past the first diagonal", ValueError, lambda: tri.diagonal(-n))
    H.raises("offset far past the first diagonal", ValueError, lambda: tri.diagonal(-n - 3))


def jobs(tier):
    out = []
    for tt in ("cum", "incr"):
        for n, lab, ex in [(7 if tier == "quick" else 12, "std", {}), (5, "months", {}), (4, "ordinal", {}),
                           (4, "uneven", {}), (2, "std", {}), (3, "std", {"names": ("ay", "age", "paid")})]:
            out.append({"name": "%s n=%d %s %s" % (tt, n, lab, "custom names" if ex else ""), "fn": h,
                        "params": dict(n=n, labels=lab, type=tt, **ex),
                        "bounds": "%dx%d, every real amount with positive first period, every offset" % (n, n)})
    return out
