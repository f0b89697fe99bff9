"""One portfolio, four ways of writing it down."""
from trikit import totri
from .common import *

OUTSIDE = "non-positive first-period amounts (C05); a gap in the first development period (C06)"


def h(H):
    p = H.params
    n = p["n"]
    gaps = p.get("gaps", ())
    o, d = labels(n, p["labels"])
    inc = [[H.real("x%d_%d" % (i, j), sign=">0" if j == 0 else None) for j in range(n - i)] for i in range(n)]
    for i, j in gaps:
        inc[i][j] = nan
    cum = cumulate(inc)
    tname = p["tri_type"]
    shape, fmt = p["shape"], p["format"]
    rows = cum if fmt.lower().strip().startswith("c") else inc
    nm = p.get("names", ("origin", "dev", "value"))
    kw = {}
    if shape == "tabular":
        recs = [(o[i], d[j], rows[i][j]) for i in range(n) for j in range(n - i) if not isnan(rows[i][j])]
        od = orders(len(recs), n)
        df = table(recs, nm, od[H.pick("order", list(od))])
        if nm[0] != "origin":
            kw = dict(origin=nm[0], dev=nm[1], value=nm[2])
    else:
        df = grid(pad(rows, n), o, d)
        if p.get("ixname"):
            df = df.rename_axis(p["ixname"])
        if nm[0] != "origin":
            kw = dict(origin=nm[0], dev=nm[1], value=nm[2])
    tri = totri(df, tri_type=tname, data_format=fmt, data_shape=shape, **kw)
    if tname.startswith("i"):
        want = inc
    else:
        want = []
        for i in range(n):
            r = list(cum[i])
            for a, b in gaps:
                if a == i:
                    r[b] = r[b - 1]
            want.append(r)
    H.frame("tri", tri, o, d, pad(want, n))


def jobs(tier):
    out = []
    big = 8 if tier == "quick" else 12
    for shape in ("tabular", "triangle"):
        for fmt in ("incr", "cum"):
            for tt in ("cum", "incr"):
                for lab, n, ex in [("std", big, {}), ("months", 4, {}), ("uneven", 3, {}), ("ordinal", 2, {}),
                                   ("std", 4, {"gaps": ((1, 1),)}), ("months", 5, {"gaps": ((0, 2), (1, 1), (2, 1))}),
                                   ("std", 4, {"names": ("ay", "age", "paid")}),
                                   ("std", 4, {"ixname": "AccYear"})]:
                    if "ixname" in ex and shape == "tabular":
                        continue
                    out.append({"name": "%s/%s -> %s n=%d %s %s" % (shape, fmt, tt, n, lab,
                                                                    " ".join("%s=%s" % kv for kv in ex.items())),
                                "fn": h, "params": dict(n=n, labels=lab, shape=shape, format=fmt, tri_type=tt, **ex),
                                "bounds": "%dx%d, every real amount, positive first period" % (n, n)})
    return out
