"""Floor of non-positive first-development-period amounts."""
from trikit import totri
from .common import *

OUTSIDE = "triangles of more than %d origins" % 5


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    recs, inc = [], []
    for i in range(n):
        row = []
        for j in range(n - i):
            parts = [H.real("x%d_%d_%d" % (i, j, t)) for t in range(p["dup"](i, j))]
            recs += [(o[i], d[j], t) for t in parts]
            row.append(total(parts))
        inc.append(row)
    od = orders(len(recs), n)
    df = table(recs, order=od[H.pick("order", p["orders"])])
    if p["format"] == "cum":
        # the amounts are cumulative totals
        cum = inc
        inc = [[r[0]] + [r[j] - r[j - 1] for j in range(1, len(r))] for r in cum]
    else:
        cum = cumulate(inc)
    tri = totri(df, tri_type=p["type"], data_format=p["format"])
    want = [list(r) for r in (inc if p["type"] == "incr" else cum)]
    for r in want:
        if r[0] <= 0:
            r[0] = 1
    H.frame("floored", tri, o, d, pad(want, n))


def jobs(tier):
    one = lambda i, j: 1
    mix = lambda i, j: 1 + (i + j) % 2
    out = []
    n = 4 if tier == "quick" else 6
    for tt in ("incr", "cum"):
        for fmt in ("incr", "cum"):
            for lab, dup, k in (("std", one, n), ("ordinal", mix, 3), ("months", mix, 3), ("std", one, 1)):
                out.append({"name": "%s from %s n=%d %s %s" % (tt, fmt, k, lab, "dups" if dup is mix else "single"),
                            "fn": h, "params": dict(n=k, labels=lab, dup=dup, type=tt, format=fmt,
                                                    orders=["sorted", "shuffled"] if k == n else ["sorted", "reversed", "shuffled"]),
                            "bounds": "%dx%d, every real amount of either sign or zero" % (k, k)})
    return out
