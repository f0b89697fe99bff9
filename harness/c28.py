"""Projection of each simulation."""
from .common import *
from . import boot

OUTSIDE = "more than 3 periods except fixed triangles; more than 3 simulations; a resampled period total of exactly zero"


def h(H):
    p = H.params
    n, sims = p["n"], p["sims"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r, log = boot.run(H, tri, free=p.get("draws"), sims=sims, q=.5, parametric=p.get("parametric", False))
    s = r.sims_data
    at = boot.table(s, o, d)
    H.same("records", len(at), len(s))
    for k in range(sims):
        def v(i, j, c):
            return s[c].iloc[at[k, i, j]]
        S = [[v(i, j, "samp_cum") for j in range(n - i)] for i in range(n)]
        f = [wmean(S, n, j, range(n - 1 - j)) for j in range(n - 1)]
        for i in range(n):
            t, last = S[i][-1], S[i][-1]
            for j in range(n):
                lab = "[%d,%s,%s]" % (k, o[i], d[j])
                if j < n - 1:
                    H.eq("factor" + lab, v(i, j, "ldf"), f[j])
                else:
                    H.true("no factor after the last period" + lab, isnan(v(i, j, "ldf")))
                if j < n - i:
                    continue
                H.same("forecast" + lab, v(i, j, "rectype"), "forecast")
                prev, t = t, t * f[j - 1]
                H.eq("projected amount" + lab, v(i, j, "samp_cum"), t)
                H.eq("projected increment" + lab, v(i, j, "samp_incr"), t - prev)
                H.eq("simulated latest" + lab, v(i, j, "latest"), last)


def jobs(tier):
    cs = [(3, "std", None, 1), (3, "months", "plain", 2), (3, "uneven", "falling", 3), (4, "ordinal", "plain", 1), (4, "months", "recovery", 2),
          (5, "std", "falling", 1), (5, "uneven", "recovery", 1), (2, "std", None, 2)]
    if tier == "thorough":
        cs += [(4, "std", "plain", 3), (6, "std", "recovery", 1), (5, "months", "plain", 2), (6, "months", "falling", 2)]
    out = []
    for n, lab, kind, sims in [(4, "quarters", "plain", 2), (4, "std", "recovery", 1), (3, "uneven", "falling", 3)]:
        out += boot.tri_jobs(h, [(n, lab, kind, sims)], "fixed draws", unit=True, draws=[])
    return out + boot.tri_jobs(h, cs, "every draw") + boot.tri_jobs(h, [(3, "ordinal", "plain", 2)], "every parametric draw", parametric=True)
