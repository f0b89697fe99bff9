"""Exhibits of a Mack run: reserve densities and diagnostics."""
from .common import *
from . import plots
from .mack import *

OUTSIDE = ("styling, tick marks and labels; triangles that are not strictly increasing; more than 4 periods except with the stated "
           "free cells; the number of points of a density")
LO, HI = .001, .999


def sq(x):
    return x.sqrt() if hasattr(x, "sqrt") else math.sqrt(x)


def density(H, what, pts, rv):
    """pts runs along the density of rv from its .1% to its 99.9% quantile."""
    H.true(what + " is a curve", len(pts) >= 10)
    if len(pts) < 10:
        return
    xs = [x for x, _ in pts]
    H.eqs(what + " range", [xs[0], xs[-1]], [rv.ppf(LO), rv.ppf(HI)])
    k = len(pts)
    for i in sorted({0, 1, k // 3, k // 2, k - 1}):
        H.eq("%s evenly spaced[%d]" % (what, i), xs[i], xs[0] + (xs[-1] - xs[0]) * i / (k - 1))
        H.eq("%s height[%d]" % (what, i), pts[i][1], rv.pdf(xs[i]))


def h_plot(H):
    rows, tri, o, d, r = run(H, H.params, dist=H.params["dist"])
    q = H.params["q"]
    with plots.recording(H) as got:
        r.plot(q=q) if q else r.plot()
    qs = sorted(q) if isinstance(q, list) else [q or .95]
    shown = [str(x) for x in o[1:] + ["total"]]
    curves = {str(k[0]): v for k, v in got.lines.items()}
    H.same("facets", sorted(curves), sorted(shown))
    for k in o[1:] + ["total"]:
        if str(k) not in curves:
            continue
        rv = r.rvs[k]
        density(H, "density[%s]" % k, curves[str(k)], rv)
        H.eqs("marks[%s]" % k, plots.vlines(got, "ax[%s]" % k), [rv.mean()] + [rv.ppf(x) for x in qs])
        H.eq("mean mark[%s]" % k, rv.mean(), r.summary["reserve"][k])


def h_diag(H):
    rows, tri, o, d, r = run(H, H.params, dist=H.params["dist"])
    n = len(o)
    with plots.recording(H) as got:
        r.diagnostics()
    rv, f = r.rvs["total"], list(r.ldfs)
    # aggregate distribution
    c = plots.plotted(got, "ax[(0, 0)].plot")
    H.same("one density", len(c), 1)
    density(H, "total density", c[0][1], rv)
    H.eqs("mean reserve", plots.vlines(got, "ax[(0, 0)]"), [r.summary["reserve"]["total"]])
    # completed rows
    paths = {str(k): v for k, v in plots.plotted(got, "ax[(0, 1)].plot")}
    H.same("paths", list(paths), [str(x) for x in o])
    step = min(b - a for a, b in zip(d, d[1:]))
    for i in range(n):
        g = paths.get(str(o[i]), [])
        w = list(rows[i][:n - i])
        for j in range(n - i, n):
            w.append(w[-1] * f[j - 1])
        xs = list(d)
        if len(g) == n + 1:                    # with the ultimate
            xs.append(g[-1][0])
            w.append(w[-1] * f[-1])
        H.same("path[%s] positions" % o[i], [str(x) for x, _ in g], [str(x) for x in xs])
        if len(g) == len(w):
            H.eqs("path[%s] amounts" % o[i], [y for _, y in g], w)
    # residuals
    def std(es):
        m = len(es)
        s = sq(total([e ** 2 for e in es]) / (m - 1))
        return [e / (s * math.sqrt((m - 1) / m)) for e in es]

    def scatter(what, path, groups):
        g = plots.plotted(got, path)
        H.same(what + " drawn once", len(g), 1)
        g = [(x, y) for x, y in g[0][1] if not isnan(y)]       # a single residual has no deviation
        want = [(t, y) for t, ys in groups for y in std(ys)]
        H.same(what + " positions", [int(x) for x, _ in g], [int(t) for t, _ in want])
        if len(g) == len(want):
            H.eqs(what, [y for _, y in g], [y for _, y in want])

    e = {(i, j): rows[i][j] * f[j] - rows[i][j + 1] for i in range(n - 1) for j in range(n - 1 - i)}
    scatter("residuals by period", "ax[(1, 0)].scatter", [(d[j], [e[i, j] for i in range(n - 1 - j)]) for j in range(n - 2)])
    scatter("residuals by origin", "ax[(1, 1)].scatter",
            [(o[i], [e[i, j] for j in range(n - 1 - i)]) for i in range(n - 2)])


def jobs(tier):
    out = []

    def add(name, fn, bounds, **p):
        out.append({"name": name, "fn": fn, "params": p, "opts": {"generic": True}, "ints": False, "bounds": bounds})
    add("densities norm n=4", h_plot, INC, n=4, alpha=1, labels="months", dist="norm", q=None)
    add("densities lognorm n=4 alpha=1", h_plot, "4x4, 2 free cells, others fixed", n=4, alpha=1, labels="ordinal", dist="lognorm", q=None,
        free=[(0, 1), (3, 0)])
    add("densities lognorm n=4", h_plot, "4x4, 2 free cells, others fixed", n=4, alpha=0, labels="quarters", dist="lognorm", q=[.9, .75],
        free=[(0, 1), (3, 0)])
    add("densities norm n=5", h_plot, "5x5, 2 free cells, others fixed", n=5, alpha=2, labels="uneven", dist="norm", q=[.5, .99],
        free=[(1, 2), (4, 0)])
    add("diagnostics norm n=4", h_diag, INC, n=4, alpha=1, labels="std", dist="norm")
    add("diagnostics lognorm n=4", h_diag, "4x4, 2 free cells, others fixed", n=4, alpha=0, labels="quarters", dist="lognorm",
        free=[(0, 1), (3, 0)])
    add("diagnostics norm n=5", h_diag, "5x5, 2 free cells, others fixed", n=5, alpha=2, labels="months", dist="norm",
        free=[(2, 1), (4, 0)])
    for dist, lab, n in (("norm", "uneven", 5), ("lognorm", "quarters", 4)):
        add("densities %s n=%d in any unit" % (dist, n), h_plot, "%dx%d, a fixed triangle in every unit" % (n, n), n=n, alpha=1, labels=lab,
            dist=dist, q=[.9], free=[], unit=True)
        add("diagnostics %s n=%d in any unit" % (dist, n), h_diag, "%dx%d, a fixed triangle in every unit" % (n, n), n=n, alpha=1, labels=lab,
            dist=dist, free=[], unit=True)
        for j in out[-2:]:
            j["opts"] = {"generic": False}
    if tier == "thorough":
        add("densities norm n=4 alpha=0", h_plot, INC, n=4, alpha=0, labels="uneven", dist="norm", q=[.25, .95])
        add("densities lognorm n=4 alpha=2", h_plot, "4x4, 3 free cells, others fixed", n=4, alpha=2, labels="std", dist="lognorm", q=[.6, .9],
            free=[(0, 2), (0, 1), (3, 0)])
        add("diagnostics norm n=4 alpha=2", h_diag, INC, n=4, alpha=2, labels="uneven", dist="norm")
        add("diagnostics norm n=6", h_diag, "6x6, 2 free cells, others fixed", n=6, alpha=1, labels="quarters", dist="norm",
            free=[(1, 3), (5, 0)])
        add("densities lognorm n=6", h_plot, "6x6, 2 free cells, others fixed", n=6, alpha=1, labels="months", dist="lognorm", q=.8,
            free=[(1, 3), (5, 0)])
    return out
