"""Calendar year effects."""
import itertools
from fractions import Fraction
import scipy.special as sp
from .common import *
from .c23 import apart_rows

OUTSIDE = ("link ratios of one period within 2% of each other's development; more than 5 periods except with the stated "
           "columns free; levels other than the listed ones")
P = (.05, .5, .1, .01)
GAP = 1.02


def moments(n):
    """mean and variance of min(S, n-S), S binomial(n, 1/2)."""
    if n == 0:
        return 0, 0
    w = [(min(k, n - k), math.comb(n, k)) for k in range(n + 1)]
    e = Fraction(sum(a * b for a, b in w), 2 ** n)
    return e, Fraction(sum(a * a * b for a, b in w), 2 ** n) - e * e


def h(H):
    p = H.params
    n = p["n"]
    rows, f = apart_rows(H, n, p["seed"], p["free"], GAP)
    tri, o, d = cumtri(rows, n, p["labels"])
    side = {}
    for j in range(n - 1):
        xs = [rows[i][j + 1] / rows[i][j] for i in range(n - 1 - j)]
        k = len(xs)
        for i, x in enumerate(xs):
            below = total([1 if y < x else 0 for y in xs])
            side[i, j] = 0 if 2 * below == k - 1 else (1 if 2 * below >= k else -1)
    a = tri.a2a_assignment
    for (i, j), v in side.items():
        H.eq("side[%s,%s]" % (o[i], d[j]), a.loc[o[i], d[j]], v)
    Z = E = V = 0
    rec = []
    for t in range(1, n - 1):        # diagonals with at least two ratios
        g = [side[i, t - i] for i in range(t + 1)]
        S, L = g.count(-1), g.count(1)
        e, v = moments(S + L)
        Z, E, V = Z + min(S, L), E + e, V + v
        rec.append((t + 1, S, L, min(S, L), S + L, e, v))
    r = tri.mack_cl(dist="norm", q=.5, alpha=p.get("alpha", 1))
    for q in P + (None,):
        (lo, hi), z = r.cy_effects_test(q) if q is not None else r.cy_effects_test()
        w = -float(sp.ndtri((q or .05) / 2)) * math.sqrt(V)
        H.eqs("p=%s" % q, [lo, hi, z], [float(E) - w, float(E) + w, Z])

    tab = getattr(r, "_cy_effects_table", None)
    if tab is not None:
        t = tab()
        for c, k in zip(("j", "S", "L", "Z", "n", "E_Z", "V_Z"), range(7)):
            H.eqs("table " + c, list(t[c]), [float(x[k]) for x in rec])


def jobs(tier):
    out = []
    cs = [(4, "std", (0, 1, 2), 1), (4, "months", (0, 1, 2), 0), (4, "uneven", (0, 1, 2), 2), (5, "ordinal", (1, 2), 1), (5, "std", (0,), 1),
          (6, "months", (3,), 1), (5, "quarters", (1, 2), 1), (5, "months", (0, 2), 1),  (6, "uneven", (3, 4), 1), (7, "std", (4, 5), 1)]
    if tier == "thorough":
        cs += [(5, "std", (0, 1, 2, 3), 1), (6, "std", (1,), 1), (6, "std", (2, 3), 2), (8, "std", (5, 6), 1), (9, "std", (6, 7), 1)]
    for n, lab, free, al in cs:
        out.append(dict(name="n=%d %s free %s" % (n, lab, free), fn=h, params=dict(n=n, labels=lab, free=free, alpha=al, seed=n + al),
                        opts={"generic": True}, ints=False,
                        bounds="%dx%d, every triangle with link ratios above 1 and 2%% apart, all orders in periods %s, one in "
                               "the others" % (n, n, free)))
    return out
