"""Age-to-age factors (link ratios)."""
from trikit import totri
from .common import *

OUTSIDE = "zero cumulative amounts in a denominator"


def h(H):
    p = H.params
    n = p["n"]
    if p["input"] == "ratio":
        rows, f = ratio_rows(H, n)
        tri, o, d = cumtri(rows, n, p["labels"])
        want = f[:n - 1]
    else:
        o, d = labels(n, p["labels"])
        inc = inc_rows(H, n, other=p["other"])
        rows = cumulate(inc)
        if p["other"] is None:
            for i in range(n):
                for j in range(1, n - i - 1):
                    H.assume(rows[i][j] != 0)
        recs = [(o[i], d[j], inc[i][j]) for i, j in cells(n)]
        tri = totri(table(recs), tri_type="cum")
        want = [[rows[i][j + 1] / rows[i][j] for j in range(n - i - 1)] for i in range(n - 1)]
    for k in range(2):
        H.frame("a2a (%d)" % k, tri.a2a, o[:-1], d[:-1], pad(want, n - 1))
    ind = tri.a2aind
    H.frame("a2aind", ind, o[:-1], d[:-1], [[1 if j < n - 1 - i else 0 for j in range(n - 1)] for i in range(n - 1)])
    # tabular order does not matter to the ratios: rebuild from shuffled records
    tb = tri.to_tbl()
    od = orders(len(tb), n)["shuffled"]
    t2 = totri(tb.iloc[od], tri_type="cum", data_format="cum")
    H.frame("a2a of the same triangle from shuffled records", t2.a2a, o[:-1], d[:-1], pad(want, n - 1))


def jobs(tier):
    out = []
    for n, lab, inp, oth in [(8 if tier == "quick" else 14, "std", "ratio", None), (5, "months", "ratio", None),
                             (5, "uneven", "ratio", None), (5, "ordinal", "incr", ">0"), (4, "std", "incr", None),
                             (2, "std", "ratio", None), (3, "months", "incr", None)]:
        out.append({"name": "a2a n=%d %s from %s%s" % (n, lab, inp, "" if oth or inp == "ratio" else " any sign"),
                    "fn": h, "params": dict(n=n, labels=lab, input=inp, other=oth),
                    "bounds": "%dx%d, %s" % (n, n, "every positive triangle" if oth or inp == "ratio" else
                                             "every triangle without zero cumulative amounts")})
    return out
