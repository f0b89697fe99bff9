"""Development variances and factor variances."""
from .common import *
from .mack import *

OUTSIDE = "triangles that are not strictly increasing; more than 4 periods except with the stated free cells; excluded link ratios"


def h(H):
    p = H.params
    n, al = p["n"], p["alpha"]
    rows, tri, o, d, r = run(H, p)
    v, ld = list(r.devpvar), list(r.ldfs)
    want = []
    for j in range(n - 2):
        w, f = weights(rows, n, j, al), ratios(rows, n, j)
        want.append(total([a * (b - ld[j]) * (b - ld[j]) for a, b in zip(w, f)]) / (len(f) - 1))
    H.same("periods", [[int(x) for x in r.devpvar.index], [int(x) for x in r.ldfvar.index]], [d[:-1], d[:-1]])
    H.eqs("devpvar", v[:-1], want)
    a, b = v[n - 3], v[n - 4]
    t = [a * a / b, a, b]
    m = t[0]
    for x in t[1:]:
        if x < m:
            m = x
    H.eq("last devpvar", v[n - 2], m)
    H.eqs("ldfvar", list(r.ldfvar), [v[j] / total(weights(rows, n, j, al)) for j in range(n - 1)])


def jobs(tier):
    return jobs_for(h, tier)
