"""Resampled triangles."""
from .common import *
from . import boot

OUTSIDE = "more than 3 periods except fixed triangles; more than 3 simulations; generator methods other than choice and normal"


def h(H):
    p = H.params
    n, sims = p["n"], p["sims"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r, log = boot.run(H, tri, free=p.get("draws"), sims=sims, q=.5, parametric=p["parametric"])
    s = r.sims_data
    H.same("records", sorted((int(a), int(b), int(c)) for a, b, c in zip(s["sim"], s["origin"], s["dev"])),
           sorted((k, x, y) for k in range(sims) for x in o for y in d))
    at = {(int(a), int(b), int(c)): i for i, (a, b, c) in enumerate(zip(s["sim"], s["origin"], s["dev"]))}
    fit = r.fitted_tri_incr
    used = []
    for k in range(sims):
        for i in range(n):
            t = None
            for j in range(n):
                q = s.iloc[at[k, o[i], d[j]]]
                lab = "[%d,%s,%s]" % (k, o[i], d[j])
                H.same("record type" + lab, q["rectype"], "actual" if j < n - i else "forecast")
                if j >= n - i:
                    H.true("no residual in the forecast" + lab, isnan(q["resid"]))
                    continue
                m = fit.iloc[i, j]
                inc = m + q["resid"] * boot.sqrt(abs(m))
                t = inc if t is None else t + inc
                H.eq("resampled increment" + lab, q["samp_incr"], inc)
                H.eq("resampled amount" + lab, q["samp_cum"], t)
                used.append(q["resid"])
    # where the residuals came from
    cs = boot.calls(log, "normal" if p["parametric"] else "choice")
    H.same("requests", len(cs) > 0 and not boot.calls(log, "choice" if p["parametric"] else "normal"), True)
    pool = [x for c in cs for x in c.draws]
    if not p["parametric"]:
        for c in cs:
            H.same("with replacement and equal weights", [bool(c.args[1]), c.args[2] is None], [True, True])
            H.same("sampled values", len(c.args[0]), len(list(r.sampling_dist)))
            if len(c.args[0]) == len(list(r.sampling_dist)):
                H.eqs("sampled values", c.args[0], list(r.sampling_dist))
    else:
        a = r.adjusted_residuals
        z = [a.iloc[i, j] for i, j in cells(n) if (i, j) not in ((n - 1, 0), (0, n - 1))]
        mu = total(z) / len(z)
        var = total([(x - mu) * (x - mu) for x in z]) / (len(z) - 1)
        for c in cs:
            for loc, sc in list(zip(*c.args))[:2]:
                H.eq("normal mean", loc, 0)
                H.eq("normal variance", sc * sc, var)
    # one draw per cell and simulation
    idx = set()
    for x in used:
        hit = [i for i, y in enumerate(pool) if same(x, y)]
        H.true("a residual is one of the draws", bool(hit))
        idx.update([i for i in hit if i not in idx][:1])
    H.same("one draw per cell and simulation", len(idx), len(used))


def same(x, y):
    if hasattr(x, "p") and hasattr(y, "p"):
        return x.p == y.p
    return x is y or (isinstance(x, float) and isinstance(y, float) and x == y)


def jobs(tier):
    out = []
    for par in (False, True):
        t = "parametric " if par else ""
        out.append(boot.job(t + "n=3 std", h, "3x3, every positive triangle and draw, 1 simulation", n=3, labels="std",
                            parametric=par, sims=1))
        for n, lab, kind, sims in [(4, "std", "plain", 2), (4, "months", "falling", 2), (5, "ordinal", "recovery", 1),
                                   (6, "uneven", "recovery", 1), (3, "std", "plain", 3)]:
            out.append(boot.job(t + "n=%d %s %s sims=%d" % (n, lab, kind, sims), h,
                                "%dx%d, one triangle, every draw, %d simulation(s)" % (n, n, sims),
                                n=n, labels=lab, kind=kind, parametric=par, sims=sims))
        out += boot.tri_jobs(h, [(4, "quarters", "plain", 1), (5, "ordinal", "falling", 1)], "fixed draws", unit=True, parametric=par, draws=[])
    return out
