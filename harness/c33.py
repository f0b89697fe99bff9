"""Exhibits of the triangle, the chain ladder and the bootstrap."""
from .common import *
from . import boot, plots

OUTSIDE = ("styling, tick marks and labels; more than 5 periods; bootstrap exhibits of more than 2 simulations; triangles "
           "whose plotted totals are compared only by origin")


def lines(H, what, got, want):
    """got, want: {key: [(x, y)]}"""
    H.same(what + " lines", sorted(map(str, got)), sorted(map(str, want)))
    for k, w in want.items():
        g = got.get(k)
        if g is None:
            continue
        H.same("%s %s positions" % (what, k), [int(x) for x, _ in g], [int(x) for x, _ in w])
        if len(g) == len(w):
            H.eqs("%s %s amounts" % (what, k), [y for _, y in g], [y for _, y in w])


def h_base(H):
    p = H.params
    n = p["n"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    tail = H.real("tail", lo=1) if p["tail"] else H.const(1)
    r = tri.base_cl(sel=p["sel"], tail=tail)
    with plots.recording(H, stop=True) as got:
        r.plot()
    f = list(r.ldfs)
    # the ultimate is drawn one step after the last period
    step = min(b - a for a, b in zip(d, d[1:]))
    tot, want = {}, {}
    for i in range(n):
        m = n - 1 - i
        act = [(d[j], rows[i][j]) for j in range(m + 1)]
        t, fc = rows[i][m], [act[-1]]
        for j in range(m + 1, n):
            t = t * f[j - 1]
            fc.append((d[j], t))
        fc.append((d[-1] + step, t * f[n - 1]))
        want[o[i], "actual"], want[o[i], "forecast"] = act, fc
        for x, y in fc:
            tot[x] = tot[x] + y if x in tot else y
    want["total", "forecast"] = sorted(tot.items())
    lines(H, "chain ladder", got.lines, want)


def level(h):
    """5th, 5% -> 5"""
    return float("".join(c for c in str(h) if c in "0123456789."))


def h_boot(H):
    p = H.params
    n, sims = p["n"], p["sims"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r, log = boot.run(H, tri, sims=sims, q=.5, free=p["draws"])
    q = p["q"]
    with plots.recording(H, stop=True) as got:
        r.plot(q=q) if q else r.plot()
    q = q or .9
    lo, hi = (1 - q) / 2, (1 + q) / 2
    f = list(r.ldfs)
    step = min(b - a for a, b in zip(d, d[1:]))
    at = boot.table(r.sims_data, o, d)
    final = [r.sims_data["ultimate"].iloc[t] for t in range(len(r.sims_data))]

    def bound(i, j, x):
        v = sorted(final[at[k, i, j]] for k in range(sims))
        k = min(int(math.floor(x * (sims - 1))), max(sims - 2, 0))
        return v[0] if sims == 1 else v[k] + (v[k + 1] - v[k]) * (x * (sims - 1) - k)

    want = {}
    heads = [h for h in dict.fromkeys(k[1] for k in got.lines) if h not in ("actual", "forecast")]
    H.same("two bounds", len(heads), 2)
    if len(heads) != 2:
        return
    heads.sort(key=lambda h: level(h))
    H.same("bounds", [round(level(h) * 1000) for h in heads], [round(lo * 100000), round(hi * 100000)])
    for i in range(n):
        m = n - 1 - i
        act = [(d[j], rows[i][j]) for j in range(m + 1)]
        t, fc = rows[i][m], [act[-1]]
        for j in range(m + 1, n):
            t = t * f[j - 1]
            fc.append((d[j], t))
        fc.append((d[-1] + step, t))
        want[o[i], "actual"], want[o[i], "forecast"] = act, fc
        for hd, x in zip(heads, (lo, hi)):
            want[o[i], hd] = [act[-1]] + [(d[j], bound(i, j, x)) for j in range(m + 1, n)] + [(d[-1] + step, bound(i, n - 1, x))]
    lines(H, "bootstrap", got.lines, want)


def h_tri(H):
    p = H.params
    n = p["n"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    want = {i: [(d[j], rows[k][j]) for j in range(n - k)] for k, i in enumerate(o)}
    with plots.recording(H) as got:
        tri.plot(display="combined")
    g = {int(k): v for k, v in plots.plotted(got, "ax.plot")}
    lines(H, "combined view", g, want)
    with plots.recording(H, stop=True) as got:
        tri.plot(display="faceted")
    lines(H, "faceted view", {k[0]: v for k, v in got.lines.items()}, want)


def jobs(tier):
    out = []

    def add(name, fn, what, **p):
        out.append({"name": name, "fn": fn, "params": p, "bounds": what, "ints": False, "opts": {"generic": True}})

    for n, lab, sel, tail, order in [(3, "std", "all-weighted", True, None), (3, "months", "all-weighted", False, None),
                                     (4, "std", "all-simple", True, None), (4, "ordinal", "all-weighted", True, None),
                                     (4, "uneven", "all-weighted", True, None), (3, "quarters", "all-weighted", True, None), (5, "months", "all-weighted", True, 3)]:
        add("chain ladder n=%d %s" % (n, lab), h_base, "%dx%d, every positive triangle%s%s" % (
            n, n, " with one order of the link ratios per period" if order else "", ", every tail" if tail else ""),
            n=n, labels=lab, sel=sel, tail=tail, order=order)
    for n, lab in [(3, "std"), (4, "uneven"), (5, "months"), (4, "ordinal"), (4, "quarters")]:
        add("triangle n=%d %s" % (n, lab), h_tri, "%dx%d, every positive triangle" % (n, n), n=n, labels=lab)
    cs = [(3, "std", "plain", 1, None, ["gamma_4", "gamma_5", "gamma_8"]), (3, "months", "recovery", 1, .5, ["choice_2", "gamma_7"]),
          (4, "ordinal", "falling", 1, .8, ["gamma_6", "gamma_7", "gamma_11"]), (4, "uneven", "plain", 1, .95, ["gamma_6", "choice_9"]),
          (3, "std", "plain", 2, .8, ["gamma_5", "gamma_14"]), (4, "quarters", "plain", 1, .9, ["gamma_11"]), (3, "months", "falling", 3, .75, ["gamma_5"])]
    if tier == "thorough":
        cs += [(5, "std", "recovery", 2, .9, ["gamma_14", "gamma_39"]), (4, "std", "plain", 3, .6, ["gamma_6"])]
    for n, lab, kind, sims, q, draws in cs:
        add("bootstrap n=%d %s %s sims=%d" % (n, lab, kind, sims), h_boot, "%dx%d, one triangle, %d simulation(s), draws %s free" % (n, n, sims, draws),
            n=n, labels=lab, kind=kind, sims=sims, q=q, draws=draws)
    return out
