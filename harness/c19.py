"""Standard errors by origin."""
from .common import *
from .mack import *

OUTSIDE = "triangles that are not strictly increasing; more than 4 periods except with the stated free cells; excluded link ratios"


def power(x, k):
    return 1 if k == 0 else x if k == 1 else x * x


def h(H):
    p = H.params
    n, al = p["n"], p["alpha"]
    rows, tri, o, d, r = run(H, p)
    ld, v = list(r.ldfs), list(r.devpvar)
    lv = [v[j] / total(weights(rows, n, j, al)) for j in range(n - 1)]
    s = r.summary
    pe, qe = list(r.process_error), list(r.parameter_error)
    H.same("labels", [[int(x) for x in r.process_error.index], [int(x) for x in r.parameter_error.index]], [o, o])
    for i in range(n):
        a = b = 0
        c = rows[i][-1]
        for k in range(n - 1 - i, n - 1):
            a = ld[k] * ld[k] * a + power(c, 2 - al) * v[k]
            b = ld[k] * ld[k] * b + lv[k] * c * c + lv[k] * b
            c = c * ld[k]
        H.eq("process error[%d]" % o[i], pe[i], a)
        H.eq("parameter error[%d]" % o[i], qe[i], b)
        se = s["std_error"].iloc[i]
        H.eq("squared standard error[%d]" % o[i], se * se, pe[i] + qe[i])
        H.le("standard error[%d] is not negative" % o[i], 0, se)
        H.eq("std_error attribute[%d]" % o[i], r.std_error.iloc[i], se)
        if i:
            H.eq("coefficient of variation[%d]" % o[i], s["cv"].iloc[i] * s["reserve"].iloc[i], se)
    H.true("no coefficient of variation without reserve", isnan(s["cv"].iloc[0]))
    H.eqs("developed origin", [pe[0], qe[0], s["std_error"].iloc[0]], [0, 0, 0])


def jobs(tier):
    return jobs_for(h, tier)
