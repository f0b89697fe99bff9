"""Development period correlation."""
import scipy.special as sp
from .common import *

OUTSIDE = ("equal link ratios within a period; more than 5 periods except with the stated columns free; levels other than "
           "the listed ones; the level's normal quantile to 1e-4 (the library finds it iteratively)")
P = (.5, .9, .95, .1, .99)


def apart_rows(H, n, seed, free, gap=None):
    """increasing triangle; columns outside free keep one strict order of their ratios."""
    r = random.Random(seed)
    rows, f = [], []
    for i in range(n):
        row, fi = [H.pos("c%d" % i)], []
        for j in range(n - 1 - i):
            fi.append(H.real("f%d_%d" % (i, j), lo=1))
            row.append(row[-1] * fi[-1])
        rows.append(row)
        f.append(fi)
    for j in range(n - 1):
        k = n - 1 - j
        if j not in free:
            perm = list(range(k))
            r.shuffle(perm)
            for a in range(1, k):
                x, y = f[perm[a - 1]][j], f[perm[a]][j]
                H.assume(x * gap < y if gap else x < y)
        else:
            for a in range(k):
                for b in range(a):
                    x, y = f[a][j], f[b][j]
                    if gap:
                        H.assume((x * gap < y) | (y * gap < x))
                    elif not H.symbolic:
                        H.assume(x != y)
    return rows, f


def ranks(xs):
    s = sorted(xs)
    return [next(k for k, y in enumerate(s) if y is x) + 1 for x in xs]


def h(H):
    p = H.params
    n = p["n"]
    rows, f = apart_rows(H, n, p["seed"], p["free"])
    tri, o, d = cumtri(rows, n, p["labels"])
    r = tri.mack_cl(alpha=p.get("alpha", 1), dist="norm", q=.5)
    num = den = 0
    table = tri.ranked_a2a
    for k in range(2, n - 1):
        rk = ranks(column_ratios(f, n, k - 1))
        sk = ranks(column_ratios(f, n, k - 2)[:-1])
        m = n - k
        T = 1 - 6 * total([(a - b) ** 2 for a, b in zip(rk, sk)]) / (m ** 3 - m)
        num, den = num + (m - 1) * T, den + (m - 1)
        H.eqs("ranks r_%d" % k, list(table["r_%d" % k])[:m], rk)
        H.eqs("ranks s_%d" % k, list(table["s_%d" % k])[:m], sk)
    for q in P:
        (lo, hi), T = r.devp_corr_test(q)
        z = float(sp.ndtri((1 + q) / 2)) / math.sqrt((n - 2) * (n - 3) / 2)
        H.eq("statistic", T, num / den)
        H.eq("lower bound p=%s" % q, lo, -z, 1e-4)
        H.eq("upper bound p=%s" % q, hi, z, 1e-4)
    (lo, hi), T = r.devp_corr_test()
    z = float(sp.ndtri(.75)) / math.sqrt((n - 2) * (n - 3) / 2)
    H.eqs("default level", [lo, hi, T], [-z, z, num / den], 1e-4)


def jobs(tier):
    out = []
    cs = [(4, "std", (0, 1, 2), 1), (4, "months", (0, 1, 2), 0), (5, "ordinal", (1, 2), 2), (5, "uneven", (0,), 1), (6, "std", (2, 3), 1),
          (7, "months", (4, 5), 1), (6, "uneven", (3,), 0)]
    if tier == "thorough":
        cs += [(5, "std", (0, 1, 2, 3), 1), (6, "std", (1,), 1), (6, "months", (2, 3), 2), (8, "std", (5, 6), 1), (9, "std", (5,), 1)]
    for n, lab, free, al in cs:
        out.append(dict(name="n=%d %s free %s" % (n, lab, free), fn=h, params=dict(n=n, labels=lab, free=free, alpha=al, seed=n + al),
                        opts={"generic": True}, ints=False,
                        bounds="%dx%d, every increasing positive triangle with distinct ratios per period, all orders in periods %s, "
                               "one order in the others" % (n, n, free)))
    return out
