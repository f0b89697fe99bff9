"""Process error."""
from .common import *
from . import boot

OUTSIDE = ("more than 3 periods except fixed triangles; more than 3 simulations; generators other than gamma; forecast "
           "increments of exactly zero")


def pick(H, c, x, inc):
    """the gamma draw x is made of: (draw number, shape, scale, factor)."""
    best = None
    for n, y in enumerate(c):
        k, a, b = y
        if H.symbolic:
            mine = {at for m in k.p for at, _ in m}
            if any(at in mine for m in x.p for at, _ in m):
                return n, a, b, x / k
        else:
            m = x / k
            err = abs(a * b * m - inc)
            if best is None or err < best[0]:
                best = (err, (n, a, b, m))
    return best[1] if best else None


def h(H):
    p = H.params
    n, sims = p["n"], p["sims"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    kw = {"procdist": p["procdist"]} if "procdist" in p else {}
    r, log = boot.run(H, tri, free=p.get("draws"), sims=sims, q=.5, **kw)
    s = r.sims_data
    at = boot.table(s, o, d)
    draws = [(y, a, b) for c in boot.calls(log, "gamma") for y, a, b in zip(c.draws, *c.args)]
    phi = r.scale_param
    used = []
    for k in range(sims):
        for i in range(n):
            t = None
            for j in range(n):
                lab = "[%d,%s,%s]" % (k, o[i], d[j])
                row = s.iloc[at[k, i, j]]
                inc, fin = row["samp_incr"], row["final_incr"]
                t = fin if t is None else t + fin
                H.eq("simulated total" + lab, row["ultimate"], t)
                if j < n - i:
                    H.eq("actual cell untouched" + lab, fin, inc)
                    continue
                hit = pick(H, draws, fin, inc)
                H.true("a gamma draw" + lab, hit is not None)
                if hit is None:
                    continue
                m, a, b, f = hit
                H.eq("mean" + lab, a * b * f, inc)
                H.eq("variance" + lab, a * b * b * f * f, abs(inc) * phi)
                used.append(m)
    H.same("one draw per forecast cell and simulation", len(set(used)), len(used))


def h_reject(H):
    rows = boot.fixed_rows(H, 3, "plain")
    tri, o, d = cumtri(rows, 3, "std")
    for nm in ("normal", "", "gam", "gammas", "lognormal", "poisson"):
        H.raises("rejects %r" % nm, ValueError, lambda: boot.run(H, tri, sims=1, q=.5, procdist=nm))


def jobs(tier):
    cs = [(3, "months", "plain", 2), (3, "uneven", "recovery", 3), (4, "ordinal", "plain", 1), (4, "months", "recovery", 2),
          (5, "std", "falling", 1), (5, "uneven", "recovery", 1)]
    if tier == "thorough":
        cs += [(4, "std", "plain", 3), (6, "std", "recovery", 1), (5, "months", "plain", 2)]
    free = [(3, "std", "plain", 1)] if tier == "quick" else [(3, "std", "plain", 2), (3, "months", "recovery", 1)]
    return (boot.tri_jobs(h, cs, "every draw") + boot.tri_jobs(h, free, "every draw and every positive latest origin", free=((2, 0),)) + boot.tri_jobs(h, [(3, "ordinal", "falling", 1)], "every draw, name as Gamma", procdist=" Gamma ")
            + [boot.job("other distributions", h_reject, "six other names", n=3)])
