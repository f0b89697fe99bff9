"""The completed triangle."""
from .common import *
from .c14 import select

OUTSIDE = "non-positive cumulative amounts and factors; triangles with more origins than development periods or the reverse"


def h(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n, p["labels"])
    tail = H.pos("tail")
    if p["sel"] in ("list", "series", "array", "tuple"):
        sel, vals = select(H, p, d, n)
    else:
        sel = p["sel"]
        vals = [tri.a2a_avgs().loc[sel, x] for x in d[:-1]]
    r = tri.base_cl(sel=sel, tail=tail)
    want = []
    for i in range(n):
        row = list(rows[i])
        for j in range(n - i, n):
            row.append(row[-1] * vals[j - 1])
        want.append(row + [row[-1] * tail])
    H.frame("trisqrd", r.trisqrd, o, d + ["ultimate"], want)
    H.eqs("ultimate", [r.trisqrd.at[x, "ultimate"] for x in o], [r.summary.at[x, "ultimate"] for x in o])
    H.frame("triangle", tri, o, d, pad(rows, n))


def h_mack(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n, g=True)
    tri, o, d = cumtri(rows, n, p["labels"])
    r = tri.mack_cl(alpha=p["alpha"], dist="norm", q=.75)
    ld = list(r.ldfs)
    want = []
    for i in range(n):
        row = list(rows[i])
        for j in range(n - i, n):
            row.append(row[-1] * ld[j - 1])
        want.append(row)
    H.frame("trisqrd", r.trisqrd[d], o, d, want)      # no tail: the last period is the ultimate
    H.eqs("ultimate", [r.trisqrd.at[x, d[-1]] for x in o], [r.summary.at[x, "ultimate"] for x in o])


def jobs(tier):
    out = []
    big = 8 if tier == "quick" else 12
    for n, lab, sel in [(big, "std", "list"), (2, "std", "series"), (5, "months", "array"), (5, "ordinal", "series"),
                        (5, "uneven", "tuple"), (4, "std", "all-weighted"), (3, "uneven", "all-simple")]:
        out.append({"name": "n=%d %s sel=%s" % (n, lab, sel), "fn": h, "params": dict(n=n, labels=lab, sel=sel),
                    "bounds": "%dx%d, every positive triangle, factor and tail" % (n, n)})
    for al in (0, 1, 2):
        out.append({"name": "mack alpha=%d" % al, "fn": h_mack, "params": dict(n=4, alpha=al, labels=("std", "months", "ordinal")[al]),
                    "opts": {"generic": True}, "ints": False, "bounds": "4x4, every strictly increasing positive triangle"})
    return out
