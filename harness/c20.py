"""The standard error of the total reserve."""
from .common import *
from .mack import *

OUTSIDE = "triangles that are not strictly increasing; more than 4 periods except with the stated free cells; excluded link ratios"


def h(H):
    p = H.params
    n = p["n"]
    rows, tri, o, d, r = run(H, p)
    s = r.summary
    ld, lv = list(r.ldfs), list(r.ldfvar)
    u = list(s["ultimate"])[:-1]
    se = list(s["std_error"])
    pe, qe = list(r.process_error), list(r.parameter_error)
    t = 0
    for i in range(1, n):
        t = t + pe[i] + qe[i]
        if i < n - 1:
            q = total([lv[k] / (ld[k] * ld[k]) for k in range(n - 1 - i, n - 1)])
            t = t + 2 * u[i] * total(u[i + 1:]) * q
    H.eq("squared total standard error", se[n] * se[n], t)
    H.le("total standard error is not negative", 0, se[n])
    H.eq("total coefficient of variation", s["cv"].iloc[n] * s["reserve"].iloc[n], se[n])
    H.eq("total reserve", s["reserve"].iloc[n], total(list(s["reserve"])[:-1]))


def jobs(tier):
    return jobs_for(h, tier)
