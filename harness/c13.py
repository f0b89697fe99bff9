"""Exclusions of link ratios."""
from .common import *
from .c11 import root_k
from .c12 import medial

OUTSIDE = ("non-positive cumulative amounts; patterns of exclusions beyond the listed ones for more than 3 periods; medial "
           "averages of more than 4 periods are checked for one order of the link ratios")


def ratios_table(rows, f, n, ind):
    """name -> list of averages over the included ratios of each window (nan for none)."""
    out = {}
    for _, k in windows(n):
        w = [[i for i in last(list(range(n - 1 - j)), k) if ind[i][j]] for j in range(n - 1)]
        x = [[f[i][j] for i in w[j]] for j in range(n - 1)]
        out[avg_name("simple", k)] = [mean(v) if v else nan for v in x]
        out[avg_name("geometric", k)] = [root_k(prod(v), len(v)) if v else nan for v in x]
        out[avg_name("medial", k)] = [medial(v) if v else nan for v in x]
        out[avg_name("weighted", k)] = [wmean(rows, n, j, w[j]) if w[j] else nan for j in range(n - 1)]
    return out


def check(H, label, tri, want, d):
    av = tri.a2a_avgs()
    H.same(label + " rows", sorted(av.index), sorted(want))
    for name in want:
        for j, dv in enumerate(d[:-1]):
            H.eq("%s %s[%s]" % (label, name, dv), av.loc[name, dv], want[name][j])


def set_ind(tri, how, o, d, v):
    if how == "tuple":
        tri.a2aind = (o, d, v)
    else:
        tri.a2aind.at[o, d] = v


def h(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n) if p["order"] is None else ordered_rows(H, n, p["order"])
    if p["order"] is None:
        for j in range(n - 1):
            x = column_ratios(f, n, j)
            for a in range(len(x)):
                for b in range(a):
                    H.assume(x[a] != x[b])
    tri, o, d = cumtri(rows, n, p["labels"])
    ind = [[1] * (n - 1 - i) for i in range(n - 1)]
    excl = H.pick("excluded", p["excl"])
    if p["read"]:
        check(H, "before", tri, ratios_table(rows, f, n, ind), d)
    for i, j in excl:
        set_ind(tri, p["how"], o[i], d[j], 0)
        ind[i][j] = 0
    H.same("indicator", [[int(tri.a2aind.at[o[i], d[j]]) for j in range(n - 1 - i)] for i in range(n - 1)], ind)
    want = ratios_table(rows, f, n, ind)
    check(H, "excluded", tri, want, d)
    # the estimates that use the averages
    for name in p["sels"]:
        if any(isnan(x) for x in want[name]):
            continue
        r = tri.base_cl(sel=name)
        H.eqs("base_cl %s factors" % name, list(r.ldfs), want[name] + [1])
        cld = [prod(want[name][n - 1 - i:]) for i in range(n)]
        H.eqs("base_cl %s ultimates" % name, [r.ultimate[x] for x in o], [rows[i][-1] * cld[i] for i in range(n)])
    # the cumulative amounts and link ratios themselves stay
    H.frame("triangle", tri, o, d, pad(rows, n))
    H.eqs("link ratios", [tri.a2a.at[o[i], d[j]] for i in range(n - 1) for j in range(n - 1 - i)],
          [f[i][j] for i in range(n - 1) for j in range(n - 1 - i)])
    # restored
    for i, j in excl:
        set_ind(tri, p["back"], o[i], d[j], 1)
        ind[i][j] = 1
    check(H, "restored", tri, ratios_table(rows, f, n, ind), d)


def h_seq(H):
    """exclusions one after the other, on two triangles at once."""
    p = H.params
    n = p["n"]
    rows, f = ordered_rows(H, n, 9)
    tri, o, d = cumtri(rows, n)
    other, _, _ = cumtri(rows, n)
    ind = [[1] * (n - 1 - i) for i in range(n - 1)]
    full = ratios_table(rows, f, n, ind)
    for k, (i, j, v) in enumerate(p["steps"]):
        set_ind(tri, ("tuple", "at")[k % 2], o[i], d[j], v)
        ind[i][j] = v
        check(H, "step %d" % k, tri, ratios_table(rows, f, n, ind), d)
        check(H, "untouched triangle, step %d" % k, other, full, d)


def jobs(tier):
    out = []
    c3 = [(i, j) for i in range(2) for j in range(2 - i)]
    all3 = [[c for b, c in enumerate(c3) if k >> b & 1] for k in range(1, 8)]
    for lab, how, back, read in (("std", "tuple", "at", False), ("months", "at", "tuple", True),
                                 ("ordinal", "tuple", "tuple", True), ("uneven", "at", "at", False)):
        out.append({"name": "n=3 every pattern, %s, %s then %s" % (lab, how, back), "fn": h,
                    "params": dict(n=3, labels=lab, how=how, back=back, read=read, excl=all3, order=None,
                                   sels=["all-weighted", "simple-1", "all-geometric"]),
                    "bounds": "3x3, every positive triangle with distinct ratios, all 7 exclusion patterns"})
    one4 = [[(i, j)] for i in range(3) for j in range(3 - i)]
    two4 = [[a, b] for k, (a,) in enumerate(one4) for (b,) in one4[:k]]
    out.append({"name": "n=4 every single ratio", "fn": h,
                "params": dict(n=4, labels="std", how="tuple", back="at", read=False, excl=one4, order=1,
                               sels=["all-weighted", "all-medial"]),
                "bounds": "4x4, one order of the link ratios per period, each single exclusion"})
    if tier == "thorough":
        out.append({"name": "n=4 every pair of ratios", "fn": h,
                    "params": dict(n=4, labels="months", how="at", back="tuple", read=True, excl=two4, order=2,
                                   sels=["all-weighted", "weighted-1"]),
                    "bounds": "4x4, one order of the link ratios per period, each pair of exclusions"})
    for n, ex, s in ((6, [[(4, 0)], [(0, 0), (1, 1), (3, 0)], [(1, 2), (2, 2)]], 3),
                     (8 if tier == "quick" else 10, [[(6, 0)], [(5, 1), (4, 2)], [(0, 6)]], 4)):
        out.append({"name": "n=%d" % n, "fn": h,
                    "params": dict(n=n, labels="std", how="tuple", back="tuple", read=False, excl=ex, order=s,
                                   sels=["weighted-2"]),
                    "bounds": "%dx%d, one order of the link ratios per period, 3 exclusion patterns" % (n, n)})
    out.append({"name": "sequence of exclusions n=5", "fn": h_seq,
                "params": dict(n=5, steps=[(0, 0, 0), (3, 0, 0), (0, 0, 1), (2, 1, 0), (1, 1, 0), (3, 0, 1), (2, 1, 1)]),
                "bounds": "5x5, one order of the link ratios per period, 7 edits"})
    return out
