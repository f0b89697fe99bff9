"""Bootstrap reports: residual statistics, the distribution by origin, the histogram."""
from .common import *
from . import boot, plots

OUTSIDE = ("bins, limits and styling of the histogram; more than 4 periods; more than 4 simulations; residuals that are all equal")


def sqrt(x):
    return x.sqrt() if hasattr(x, "sqrt") else math.sqrt(x)


def moment(v, k):
    m = mean(v)
    out = []
    for x in v:
        y = x - m
        z = y
        for _ in range(k - 1):
            z = z * y
        out.append(z)
    return mean(out)


def h_detail(H):
    """residual tables of any content, put in place of the ones the run left."""
    p = H.params
    n = p["n"]
    tri, o, d = cumtri(boot.fixed_rows(H, n, "plain"), n, p["labels"])
    r, log = boot.run(H, tri, sims=1, q=.5, free=[])
    tabs = {}
    for c, at in (("unscaled", p["unscaled"]), ("adjusted", p["adjusted"])):
        xs, rows = [], []
        for i in range(n):
            rows.append([])
            for j in range(n):
                if i + j >= n:
                    rows[-1].append(np.nan)
                elif (i, j) in at:
                    xs.append(H.real("%s%d_%d" % (c, i, j)))
                    rows[-1].append(xs[-1])
                elif (i, j) in ((0, n - 1), (n - 1, 0)):
                    rows[-1].append(0.)
                else:
                    rows[-1].append(H.const([-1.5, .75, 2.25, -.5, 1.25][(2 * i + j) % 5]))
        for a in range(len(xs)):
            if not p.get("zeros"):
                H.assume(xs[a] != 0)
            for b in range(a):
                if not p.get("ties"):
                    H.assume(xs[a] != xs[b])
        tabs[c] = grid(rows, o, d)
    r.unscaled_residuals, r.adjusted_residuals = tabs["unscaled"], tabs["adjusted"]
    t = r.residuals_detail
    H.same("columns", list(t.columns), ["unscaled", "adjusted"])
    H.same("rows", list(t.index), ["size", "sum", "sum_of_squares", "minimum", "maximum", "mean", "skew", "mode", "cov",
                                   "kurtosis", "variance", "standard_deviation", "median"])
    for c in ("unscaled", "adjusted"):
        v = [x for x in np.asarray(tabs[c], dtype=object).ravel() if not isnan(x)]
        v = [x for x in v if x != 0]
        g = lambda k: t.loc[k, c]
        n, m = len(v), mean(v)
        lo, hi, srt = v[0], v[0], []
        for x in v:
            lo, hi = (x if x < lo else lo), (x if x > hi else hi)
            k = len(srt)
            while k and x < srt[k - 1]:
                k -= 1
            srt.insert(k, x)
        H.eq(c + " size", g("size"), n)
        H.eq(c + " sum", g("sum"), total(v))
        H.eq(c + " sum of squares", g("sum_of_squares"), total([x * x for x in v]))
        H.eq(c + " minimum", g("minimum"), lo)
        H.eq(c + " maximum", g("maximum"), hi)
        H.eq(c + " mean", g("mean"), m)
        H.eq(c + " median", g("median"), srt[n // 2] if n % 2 else (srt[n // 2 - 1] + srt[n // 2]) / 2)
        var = total([(x - m) * (x - m) for x in v]) / (n - 1)
        H.eq(c + " variance", g("variance"), var)
        H.eq(c + " standard deviation", g("standard_deviation"), sqrt(var))
        if m != 0:
            H.eq(c + " coefficient of variation", g("cov") * m, sqrt(moment(v, 2)))
        H.eq(c + " skew", g("skew") * sqrt(moment(v, 2)) * moment(v, 2), moment(v, 3))
        H.eq(c + " kurtosis", (g("kurtosis") + 3) * moment(v, 2) * moment(v, 2), moment(v, 4))
        most, top = None, 0
        for x in srt:                  # the smallest of the most frequent
            k = len([y for y in srt if y == x])
            if k > top:
                most, top = x, k
        H.eq(c + " mode", g("mode"), most)
    again = r.residuals_detail
    H.same("same table", [list(again.index), list(again.columns)], [list(t.index), list(t.columns)])


def h_dist(H):
    p = H.params
    n, sims = p["n"], p["sims"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r, log = boot.run(H, tri, sims=sims, q=.5, free=p["draws"])
    rd = r.reserve_dist
    row = {(int(k), str(x)): t for t, (k, x) in enumerate(zip(rd["sim"], rd["origin"]))}
    before = (list(rd.columns), {c: list(rd[c].values) for c in ("latest", "ultimate", "reserve")})
    od = r.origin_dist
    H.same("distribution rows", sorted((int(k), str(x)) for k, x in zip(od["sim"], od["origin"])), sorted(row))
    for t, (k, x) in enumerate(zip(od["sim"], od["origin"])):
        for c in ("latest", "ultimate", "reserve"):
            H.eq("%s[%d,%s]" % (c, int(k), x), od[c].values[t], before[1][c][row[int(k), str(x)]])
    # the histogram bins every simulated reserve of an origin, and marks their median
    with plots.recording(H) as got:
        r.hist()
    after = r.reserve_dist
    H.same("result columns after the histogram", list(after.columns), before[0])
    for c in before[1]:
        H.eqs("result after the histogram: " + c, list(after[c].values), before[1][c])
    names = [str(x) for x in o] + ["total"]
    bins = {str(k[0]): [x for x, in v] for k, v in got.lines.items() if v and len(v[0]) == 1}
    H.same("histograms", sorted(bins), sorted(names))
    for x in names:
        v = [before[1]["reserve"][row[k, x]] for k in range(sims)]
        srt = []
        for y in v:
            k = len(srt)
            while k and y < srt[k - 1]:
                k -= 1
            srt.insert(k, y)
        H.same("histogram size[%s]" % x, len(bins.get(x, [])), sims)
        if len(bins.get(x, [])) == sims:
            H.eqs("histogram[%s]" % x, bins[x], v)
        med = srt[sims // 2] if sims % 2 else (srt[sims // 2 - 1] + srt[sims // 2]) / 2
        if med < 0:
            med = 0
        H.eqs("median mark[%s]" % x, plots.vlines(got, "ax[%s]" % x), [med])


def jobs(tier):
    out = []
    B = boot.job

    def detail(name, bounds, **p):
        j = B("residual statistics " + name, h_detail, bounds, **p)
        j["opts"] = {"generic": False}
        out.append(j)
    detail("n=3", "3x3, 2 unscaled residuals free, others fixed", n=3, labels="std", unscaled=[(0, 1), (1, 0)], adjusted=[])
    detail("n=3 adjusted", "3x3, 2 adjusted residuals free, others fixed", n=3, labels="std", adjusted=[(0, 1), (1, 0)], unscaled=[])
    detail("n=3 zeros", "3x3, 1 residual free, zero included, others fixed", n=3, labels="months", unscaled=[(1, 1)], adjusted=[(0, 0)],
           zeros=True)
    detail("n=3 equal", "3x3, 1 residual of each table free, equal ones included", n=3, labels="std", unscaled=[(0, 0)], adjusted=[(1, 1)], ties=True)
    if tier == "thorough":
        detail("n=3 three free", "3x3, 3 unscaled residuals free", n=3, labels="std", unscaled=[(0, 1), (1, 0), (1, 1)], adjusted=[], ties=True)
        detail("n=4", "4x4, 2 adjusted residuals free, others fixed", n=4, labels="uneven", unscaled=[], adjusted=[(0, 1), (2, 0)], zeros=True)
    cs = [(3, "plain", "quarters", 2, ["gamma_5", "gamma_8"]), (3, "recovery", "std", 2, ["gamma_7"]),
          (3, "falling", "ordinal", 2, ["gamma_8"]), (4, "plain", "uneven", 2, ["gamma_14", "gamma_29"])]
    if tier == "thorough":
        cs += [(3, "recovery", "std", 3, ["gamma_7", "gamma_13"]), (3, "falling", "std", 3, ["gamma_7", "gamma_13"]), (3, "plain", "std", 4, ["gamma_8", "gamma_17"]),
               (4, "falling", "months", 2, ["gamma_14", "gamma_29"])]
    for n, kind, lab, sims, draws in cs:
        out.append(B("reports n=%d %s sims=%d" % (n, kind, sims), h_dist, "%dx%d, one triangle, %d simulations, draws %s free" % (
            n, n, sims, draws), n=n, kind=kind, labels=lab, sims=sims, draws=draws))
    return out
