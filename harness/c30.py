"""Reserve distribution and summary of the bootstrap."""
from .common import *
from . import boot

OUTSIDE = ("more than 3 periods except fixed triangles; more than 4 simulations; quantile levels other than the listed ones; "
           "forecast increments of exactly zero")


def position(m, q, how):
    """[(weight, order statistic)] of the q quantile of m values."""
    x = q * (m - 1)
    k = int(math.floor(x + 1e-9))
    f = max(x - k, 0.0)
    if f < 1e-9 or k + 1 >= m:
        return [(1, min(k, m - 1))]
    return {"linear": [(1 - f, k), (f, k + 1)], "lower": [(1, k)], "higher": [(1, k + 1)],
            "midpoint": [(.5, k), (.5, k + 1)], "nearest": [(1, k if f < .5 else k + 1)]}[how]


def quantile(xs, q, how):
    """xs sorted already."""
    return total([w * xs[k] for w, k in position(len(xs), q, how)])


def squares(xs):
    m = mean(xs)
    return total([(x - m) * (x - m) for x in xs])


def h(H):
    p = H.params
    n, sims, how, qs = p["n"], p["sims"], p["how"], p["q"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    kw = {} if how == "default" else {"interpolation": how}
    how = "linear" if how == "default" else how
    r, log = boot.run(H, tri, free=p.get("draws"), sims=sims, q=qs, parametric=p.get("parametric", False), **kw)
    s, rd = r.sims_data, r.reserve_dist
    at = boot.table(s, o, d)
    H.same("simulations", r.sims, sims)
    H.same("rows", sorted((int(k), str(x)) for k, x in zip(rd["sim"], rd["origin"])),
           sorted((k, str(x)) for k in range(sims) for x in o + ["total"]))
    row = {(int(k), x if isinstance(x, str) else int(x)): t for t, (k, x) in enumerate(zip(rd["sim"], rd["origin"]))}
    if len(row) != sims * (n + 1):
        return
    cols = {c: rd[c].values for c in ("latest", "ultimate", "reserve")}
    ult, lat, res = {}, {}, {}
    for k in range(sims):
        for i in range(n):
            lab = "[%d,%s]" % (k, o[i])
            t, e = row[k, o[i]], s.iloc[at[k, i, n - 1]]
            ult[k, i] = e["ultimate"]
            lat[k, i] = e["ultimate"] if i == 0 else s.iloc[at[k, i, n - 1 - i]]["samp_cum"]
            res[k, i] = ult[k, i] - lat[k, i]
            H.eq("simulated ultimate" + lab, cols["ultimate"][t], ult[k, i])
            H.eq("simulated latest" + lab, cols["latest"][t], lat[k, i])
            H.eq("simulated reserve" + lab, cols["reserve"][t], res[k, i])
        t = row[k, "total"]
        for c, v in (("ultimate", ult), ("latest", lat), ("reserve", res)):
            H.eq("simulated total %s[%d]" % (c, k), cols[c][t], total([v[k, i] for i in range(n)]))
    m = r.summary
    H.same("summary rows", [x if isinstance(x, str) else int(x) for x in m.index], o + ["total"])
    act = [rows[i][n - 1 - i] for i in range(n)]
    us = [act[0]] + [mean([ult[k, i] for k in range(sims)]) for i in range(1, n)]
    H.eqs("latest", list(m["latest"]), act + [total(act)])
    H.eqs("ultimate", list(m["ultimate"]), us + [total(us)])
    rs = [us[i] - act[i] for i in range(n)]
    H.eqs("reserve", list(m["reserve"]), rs + [total(rs)])
    x = [[res[k, i] for k in range(sims)] for i in range(n)]
    x.append([total([res[k, i] for i in range(n)]) for k in range(sims)])
    rs.append(total(rs))
    for i in range(n + 1):
        lab = "[%s]" % (o + ["total"])[i]
        se = m["std_error"].iloc[i]
        if sims > 1:
            if i == 0:
                H.eq("no deviation without reserve", se, 0)
                H.true("no ratio without reserve", isnan(m["cv"].iloc[i]))
            else:
                H.eq("standard error" + lab, se * se * (sims - 1), squares(x[i]))
                H.true("standard error is not negative" + lab, se >= 0)
                H.eq("coefficient of variation" + lab, m["cv"].iloc[i] * rs[i], se)
        y = [0] * sims if i == 0 else sorted(x[i])
        for q in qs:
            H.eq("quantile %g%s" % (q, lab), m["%g%%" % (100 * q)].iloc[i], quantile(y, q, how))
        g = r.get_quantiles(qs, **kw)
        for q, v in zip(sorted(qs), list(g.iloc[i])):
            H.eq("get_quantiles %g%s" % (q, lab), v, quantile(y, q, how))
    if "lb" in p:
        lb = H.real("lb")
        g, a = r.get_quantiles(qs, lb=lb, **kw), r.get_quantiles(qs, **kw)
        for i in range(n + 1):
            for k in range(len(qs)):
                v = a.iloc[i, k]
                H.eq("lower bound [%d,%d]" % (i, k), g.iloc[i, k], lb if v < lb else v)
    od = r.origin_dist
    H.same("distribution by origin", len(od), sims * (n + 1))
    for k, x, a, b, c in zip(od["sim"], od["origin"], od["latest"], od["ultimate"], od["reserve"]):
        t = row[int(k), x if isinstance(x, str) else int(x)]
        H.eqs("distribution by origin [%s,%s]" % (k, x), [a, b, c], [cols[y][t] for y in ("latest", "ultimate", "reserve")])


def jobs(tier):
    out = []

    def add(cs, what="every draw", **kw):
        out.extend(boot.tri_jobs(h, cs, what, **kw))
        out[-1]["name"] += " " + kw["how"]

    add([(3, "std", "plain", 2)], how="default", q=[.75, .5])
    add([(3, "months", "plain", 1)], how="linear", q=[.25], lb=1)
    add([(3, "ordinal", "plain", 2)], how="nearest", q=[.4, .8])
    add([(3, "uneven", "falling", 2)], how="midpoint", q=[.4, 1])
    add([(3, "std", "falling", 3)], how="lower", q=[.7, 0])
    add([(3, "months", "plain", 3)], how="higher", q=[.7, .2])
    add([(4, "std", "recovery", 1)], how="default", q=[.5])
    add([(4, "months", "plain", 1)], how="nearest", q=[.5])
    add([(3, "std", "plain", 1)], "every draw and every positive latest origin", how="default", q=[.5], free=((2, 0),))
    add([(3, "std", "plain", 2)], "every parametric draw", how="default", q=[.5, .9], parametric=True)
    for n, lab, kind, sims, draws in [(4, "ordinal", "settled", 2, ["gamma_9"]), (4, "std", "settled", 3, ["gamma_9", "gamma_19"]),
                                      (5, "months", "settled", 2, ["gamma_3"])]:
        add([(n, lab, kind, sims)], "draws %s free, equal results included" % draws, how="default", q=[.5, .75], draws=draws)
        out[-1]["opts"] = {"generic": False}
    for n, lab, kind, sims in [(4, "quarters", "plain", 2), (4, "std", "recovery", 1), (3, "uneven", "falling", 1)]:
        add([(n, lab, kind, sims)], "fixed draws", how="default", q=[.5, .75], draws=[], unit=True)
    if tier == "thorough":
        add([(3, "std", "falling", 3)], how="default", q=[.75, .5])
        add([(4, "uneven", "plain", 2)], how="midpoint", q=[.75])
        add([(3, "ordinal", "recovery", 3)], how="nearest", q=[.75])
        add([(5, "std", "falling", 1)], how="lower", q=[.5])
    return out
