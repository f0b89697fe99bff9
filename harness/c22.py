"""Quantile requests: validation, order, labels, scalar and sequence."""
from .common import *
from . import boot
from .mack import partial_rows

OUTSIDE = ("levels inside 0 to 1 other than the listed ones (labels are text, so a level is a number there); "
           "levels outside are every real number")

LEVELS = {
    "one": [.75], "unsorted": [.95, .5, .75], "repeated": [.9, .1, .9, .1], "ends": [0, 1, .5], "fine": [.005, .995, .29],
    "teens": [.11, .12, .13, .01, .02, .03, .21, .22, .23], "nearly": [.33333, .123456],
}


def sequence(kind, xs):
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "array":
        return np.asarray(xs) if all(isinstance(x, (int, float)) for x in xs) else column(xs)
    if kind == "series":
        return pd.Series(column(xs), index=range(5, 5 + len(xs)))
    raise ValueError(kind)


def pct(x):
    t = "%.5f" % (100 * x)
    return t.rstrip("0").rstrip(".")


def nth(x):
    t = pct(x)
    if "." in t or t[-2:] in ("11", "12", "13"):
        return t + "th"
    return t + {"1": "st", "2": "nd", "3": "rd"}.get(t[-1], "th")


def result(H, tri, est, **kw):
    if est == "mack":
        return tri.mack_cl(dist="norm", **kw)
    return boot.run(H, tri, sims=2, **kw)[0]


def data(H, est):
    if est == "mack":
        rows, lab, n = partial_rows(H, 4, [(0, 1), (3, 0)], 3), "std", 4
    else:
        rows, lab, n = boot.fixed_rows(H, 3, "plain"), "months", 3
    return cumtri(rows, n, lab)[0]


def h_in(H):
    p = H.params
    xs = LEVELS[p["levels"]]
    tri = data(H, p["est"])
    q = sequence(p["seq"], xs)
    r = result(H, tri, p["est"], q=q, two_sided=p["two"])
    want = sorted({y for x in xs for y in ((1 - x) / 2, (1 + x) / 2)}) if p["two"] else sorted(set(xs))
    heads = [pct(x) + "%" for x in want]
    s = r.summary
    H.same("labels", [c for c in s.columns if str(c).endswith("%")], heads)
    H.same("request left alone", [float(x) for x in q], [float(x) for x in xs])
    for x, c in zip(want, heads):
        g = r.get_quantiles(x)
        H.same("single level %s" % c, [list(g.columns), list(g.index)], [[nth(x)], list(s.index)])
        for i in range(len(s.index)):
            a, b = s[c].iloc[i], g.iloc[i, 0]
            H.eq("get_quantiles agrees %s[%s]" % (c, s.index[i]), b, a)
    a = r.get_quantiles(sequence(p["seq"], xs))
    H.same("many levels", [list(a.columns), list(a.index)], [[nth(x) for x in sorted(set(xs))], list(s.index)])
    one = [r.get_quantiles([x]) for x in sorted(set(xs))]
    for k, g in enumerate(one):
        H.eqs("many levels %d" % k, list(a.iloc[:, k]), list(g.iloc[:, 0]))


def h_scalar(H):
    p = H.params
    x = p["q"]
    tri = data(H, p["est"])
    a, b = result(H, tri, p["est"], q=x, two_sided=p["two"]), result(H, tri, p["est"], q=[x], two_sided=p["two"])
    want = sorted({(1 - x) / 2, (1 + x) / 2}) if p["two"] else [x]
    for r in (a, b):
        H.same("labels", [c for c in r.summary.columns if str(c).endswith("%")], [pct(y) + "%" for y in want])
    for y in want:
        c = pct(y) + "%"
        H.eqs("scalar " + c, list(a.summary[c]), list(b.summary[c]))
    H.eqs("get_quantiles", list(a.get_quantiles(x).iloc[:, 0]), list(a.get_quantiles([x]).iloc[:, 0]))


def h_out(H):
    p = H.params
    x = H.real("q")
    H.assume(x > 1 if p["side"] == "above" else x < 0)
    tri = data(H, p["est"])
    for k, xs in enumerate(([x], [.5, x], [x, .25, .75])):
        q = sequence(p["seq"], xs)
        for two in (False, True):
            H.raises("rejected %d two-sided %s" % (k, two), ValueError, lambda: result(H, tri, p["est"], q=q, two_sided=two))
    r = result(H, tri, p["est"], q=.5)
    for xs in ([x], [.5, x]):
        H.raises("get_quantiles rejects %d" % len(xs), ValueError, lambda: r.get_quantiles(sequence(p["seq"], xs)))


def h_out_scalar(H):
    p = H.params
    tri = data(H, p["est"])
    for x in (1.0000001, -1e-9, 2, -1, 75, 1e9):
        H.raises("rejected %r" % x, ValueError, lambda: result(H, tri, p["est"], q=x))
    r = result(H, tri, p["est"], q=.5)
    for x in (1.0000001, -1e-9, 2, -1, 75):
        H.raises("get_quantiles rejects %r" % x, ValueError, lambda: r.get_quantiles(x))


def jobs(tier):
    out = []
    O = dict(opts={"generic": True}, ints=False)
    for est in ("mack", "boot"):
        for k, lv in enumerate(LEVELS):
            for two in (False, True):
                if two and lv in ("teens", "nearly"):
                    continue
                seq = ["list", "array", "tuple", "series"][(k + two) % 4]
                out.append(dict(name="%s %s %s two=%s" % (est, lv, seq, two), fn=h_in, params=dict(est=est, levels=lv, seq=seq, two=two),
                                bounds="levels %s; 4x4 triangle with two free cells (Mack) or every draw of two simulations" % LEVELS[lv],
                                **O))
        for x in (.9, 0, 1, .05, .995):
            out.append(dict(name="%s scalar %s" % (est, x), fn=h_scalar, params=dict(est=est, q=x, two=x == .9), bounds="level %s" % x, **O))
        for side in ("above", "below"):
            for seq in ("list", "array"):
                out.append(dict(name="%s %s %s" % (est, side, seq), fn=h_out, params=dict(est=est, side=side, seq=seq),
                                bounds="every level %s the range, alone and among valid ones" % side, **O))
        out.append(dict(name="%s scalar outside" % est, fn=h_out_scalar, params=dict(est=est), bounds="six levels outside the range", **O))
    return out
