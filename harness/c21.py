"""Mack's reserve distributions."""
import scipy.special as sp
from .common import *
from fractions import Fraction
from .mack import *

OUTSIDE = ("triangles that are not strictly increasing; more than 4 periods except with the stated free cells; the plotted "
           "densities; quantile levels other than the listed ones")
QS = [.5, .75, .9, .95, .99, .005, .25]


def sqrt(x):
    return x ** Fraction(1, 2) if not isinstance(x, float) else math.sqrt(x)


def log(x):
    return x.log() if hasattr(x, "log") else math.log(x)


def exp(x):
    return x.exp() if hasattr(x, "exp") else math.exp(x)


def h(H):
    p = H.params
    n, dist = p["n"], p["dist"]
    kw = {} if dist == "default" else {"dist": dist}
    if p.get("free") is not None:
        rows = partial_rows(H, n, p["free"], p["seed"])
    else:
        rows, _ = ratio_rows(H, n, g=True)
    sc = p.get("scale")
    if sc:
        rows = [[x * H.const(sc) for x in r] for r in rows]
    tri, o, d = cumtri(rows, n, p["labels"])
    r = tri.mack_cl(alpha=p["alpha"], q=QS, **kw)
    s = r.summary
    hd = ["0.5%", "25%", "50%", "75%", "90%", "95%", "99%"]
    H.same("columns", list(s.columns)[-len(QS):], hd)
    H.same("distributions", [x if isinstance(x, str) else int(x) for x in r.rvs.index], o + ["total"])
    gq = r.get_quantiles(QS)
    H.same("quantile table", list(gq.columns), ["0.5th", "25th", "50th", "75th", "90th", "95th", "99th"])
    for i in range(1, n + 1):
        lab = (o + ["total"])[i]
        rv = r.rvs.iloc[i]
        R, se = s["reserve"].iloc[i], s["std_error"].iloc[i]
        H.eq("mean[%s]" % lab, rv.mean(), R)
        H.eq("variance[%s]" % lab, rv.var(), se * se)
        for q, c in zip(sorted(QS), hd):
            z = float(sp.ndtri(q))
            v = s[c].iloc[i]
            H.eq("quantile %s[%s]" % (c, lab), v, rv.ppf(q))
            H.eq("get_quantiles %s[%s]" % (c, lab), gq[c.replace("%", "th")].iloc[i], v)
            if dist == "norm":
                H.eq("normal quantile %s[%s]" % (c, lab), v, R + se * z)
        if dist != "norm":
            H.eq("lognormal median[%s]" % lab, s["50%"].iloc[i] ** 2 * (1 + (se / R) ** 2), R * R)
            H.eq("lognormal quantiles are symmetric[%s]" % lab, s["25%"].iloc[i] * s["75%"].iloc[i], s["50%"].iloc[i] ** 2)
    for c in hd:
        H.true("no quantile without reserve %s" % c, isnan(s[c].iloc[0]))


def h_bad(H):
    p = H.params
    rows, _ = ratio_rows(H, 4, g=True)
    tri, o, d = cumtri(rows, 4)
    name = H.pick("dist", ["gamma", "normal", "lognormal", "", "NORM", None, "poisson"])
    H.raises("dist=%r" % (name,), ValueError, lambda: tri.mack_cl(alpha=p["alpha"], dist=name, q=.75))


def jobs(tier):
    out = []
    frees = [(5, [(0, 1), (4, 0)], "std"), (6, [(3, 1), (5, 0)], "months")]
    if tier == "thorough":
        frees += [(8, [(2, 4), (6, 1)], "uneven"), (10, [(5, 1), (9, 0)], "std")]
    for dist in ("norm", "lognorm", "default"):
        for al, lab in ((0, "months"), (1, "std"), (2, "ordinal")):
            if dist == "default" and al != 1:
                continue
            out.append({"name": "%s n=4 alpha=%d" % (dist, al), "fn": h, "params": dict(n=4, alpha=al, labels=lab, dist=dist),
                        "opts": {"generic": True}, "ints": False, "bounds": INC})
        for n, free, lab in frees:
            out.append({"name": "%s n=%d free cells %s" % (dist, n, free), "fn": h,
                        "params": dict(n=n, alpha=1, labels=lab, dist=dist, free=free, seed=n), "opts": {"generic": True}, "ints": False,
                        "bounds": "%dx%d, fixed increasing triangle with cells %s free" % (n, n, free)})
    for sc in (1 / 16384, 1024, 1048576):
        out.append({"name": "lognorm n=5 scaled by %g" % sc, "fn": h,
                    "params": dict(n=5, alpha=1, labels="std", dist="lognorm", free=[(2, 1)], seed=3, scale=sc),
                    "opts": {"generic": True}, "ints": False, "bounds": "5x5, fixed increasing triangle with cell (2, 1) free"})
    for dist, n, al, lab in (("norm", 4, 0, "quarters"), ("norm", 8, 1, "std"), ("lognorm", 5, 2, "months"), ("lognorm", 4, 1, "uneven")):
        out.append({"name": "%s n=%d alpha=%d in any unit" % (dist, n, al), "fn": h,
                    "params": dict(n=n, alpha=al, labels=lab, dist=dist, free=[], seed=n, unit=True),
                    "opts": {"generic": False}, "ints": False, "bounds": "%dx%d, fixed increasing triangle in every unit" % (n, n)})
    for al in (0, 1, 2):
        out.append({"name": "other distributions alpha=%d" % al, "fn": h_bad, "params": dict(alpha=al), "opts": {"generic": True},
                    "ints": False, "bounds": "4x4, every strictly increasing triangle, 7 names"})
    return out
