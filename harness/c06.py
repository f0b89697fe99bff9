"""Missing actuals of a cumulative triangle."""
from trikit import totri
from .common import *

OUTSIDE = "a missing cell on the latest diagonal; an origin without any record"


def h(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, p["labels"])
    gaps = H.pick("gaps", p["gaps"])
    inc = [[nan if (i, j) in gaps else H.real("x%d_%d" % (i, j), sign=">0" if j == 0 else None)
            for j in range(n - i)] for i in range(n)]
    cum = cumulate(inc)
    if p["shape"] == "tabular":
        rows = cum if p["format"] == "cum" else inc
        recs = [(o[i], d[j], rows[i][j]) for i, j in cells(n) if not isnan(rows[i][j])]
        od = orders(len(recs), n)
        df = table(recs, order=od[H.pick("order", ["sorted", "shuffled"])])
    else:
        df = grid(pad(cum if p["format"] == "cum" else inc, n), o, d)
    tri = totri(df, tri_type="cum", data_format=p["format"], data_shape=p["shape"])
    want = []
    for r in cum:
        r = list(r)
        if isnan(r[0]):
            r[0] = 1
        for j in range(1, len(r)):
            if isnan(r[j]):
                r[j] = r[j - 1]
        want.append(r)
    H.frame("filled", tri, o, d, pad(want, n))


def jobs(tier):
    import itertools
    out = []
    for n, lab in ((4, "std"), (5, "months"), (4, "ordinal")):
        inner = [(i, j) for i, j in cells(n) if j < n - i - 1]
        one = [(c,) for c in inner]
        # a first-period gap makes the origin's first amount its second cell
        two = [c for c in itertools.combinations(inner, 2)]
        if tier == "quick":
            two = two[::2] if n == 4 else two[::4]
        else:
            two += list(itertools.combinations(inner, 3))[::2]
        gaps = [g for g in one + two if not all((i, 0) in g for i in range(n - 1))]
        for shape in ("tabular", "triangle"):
            for fmt in ("incr", "cum"):
                out.append({"name": "%s/%s n=%d %s" % (shape, fmt, n, lab), "fn": h,
                            "params": dict(n=n, labels=lab, gaps=gaps, shape=shape, format=fmt),
                            "bounds": "%dx%d, %d sets of missing cells, every real amount" % (n, n, len(gaps))})
    return out
