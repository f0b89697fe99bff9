"""The caller's inputs are left alone, and results do not depend on what was called before."""
import numpy as np
import pandas as pd
from trikit import totri
from .common import *
from . import boot

OUTSIDE = "the bootstrap's caller-supplied generator (advanced by design); concurrent callers"


def snap(df):
    return ([x for x in df.index], list(df.columns), [[df.iloc[i, j] for j in range(df.shape[1])]
                                                      for i in range(df.shape[0])], df.index.name, df.columns.name)


def unchanged(H, label, df, s):
    H.frame(label, df, s[0], s[1], s[2])
    H.same(label + ":axis names", [df.index.name, df.columns.name], [s[3], s[4]])


def h_totri(H):
    p = H.params
    n = p["n"]
    o, d = labels(n, "std")
    inc = [[H.real("x%d_%d" % (i, j)) for j in range(n - i)] for i in range(n)]
    rows = cumulate(inc) if p["format"] == "cum" else inc
    if p["shape"] == "tabular":
        recs = [(o[i], d[j], rows[i][j]) for i, j in cells(n)]
        recs.append((o[0], d[0], H.real("dup")))
        od = orders(len(recs), n)
        df = table(recs, order=od[H.pick("order", ["sorted", "shuffled"])], extra=p.get("extra", False))
    else:
        df = grid(pad(rows, n), o, d)
    s = snap(df)
    first = totri(df, tri_type=p["type"], data_format=p["format"], data_shape=p["shape"])
    unchanged(H, "data after totri", df, s)
    want = snap(first)
    again = totri(df, tri_type=p["type"], data_format=p["format"], data_shape=p["shape"])
    unchanged(H, "second totri on the same data", again, want)
    # writing into one triangle does not write into the data or the other triangle
    first.iloc[0, 0] = 77.
    unchanged(H, "data after the triangle was edited", df, s)
    unchanged(H, "the other triangle after the edit", again, want)


def base_out(res):
    return flatten(res.summary.drop("maturity", axis=1)) + flatten(res.trisqrd) + list(res.ldfs)


def flatten(df):
    return [df.iloc[i, j] for i in range(df.shape[0]) for j in range(df.shape[1])]


VIEWS = ("latest", "latest_by_origin", "latest_by_devp", "maturity", "devp", "origins", "triind", "rlvi", "clvi", "a2a",
         "a2aind", "a2a_lvi", "nbr_cells")


def views(tri):
    """every property of the triangle: {name: (labels, values)}."""
    out = {}
    for k in VIEWS:
        v = getattr(tri, k)
        if isinstance(v, (pd.Series, pd.DataFrame)):
            v = v.to_frame() if isinstance(v, pd.Series) else v
            out[k] = ([str(x) for x in v.index] + [str(x) for x in v.columns], flatten(v))
        else:
            out[k] = ([], [v])
    return out


def same_views(H, label, tri, want):
    for k, (lab, vals) in views(tri).items():
        H.same("%s: labels of %s" % (label, k), lab, want[k][0])
        if lab == want[k][0]:
            if any(isinstance(x, str) for x in vals):
                H.same("%s: %s" % (label, k), [str(x) for x in vals], [str(x) for x in want[k][1]])
            else:
                H.eqs("%s: %s" % (label, k), vals, want[k][1])


def h_boot(H):
    p = H.params
    n = p["n"]
    rows = boot.fixed_rows(H, n, p["kind"])
    tri, o, d = cumtri(rows, n, p["labels"])
    s, v = snap(tri), views(tri)

    def out(r):
        return flatten(r.summary.drop("maturity", axis=1)) + list(r.ldfs) + flatten(r.trisqrd) + flatten(
            r.reserve_dist.drop("origin", axis=1)) + list(r.sampling_dist)
    free = p["free"]
    r, log = boot.run(H, tri, sims=2, q=.5, free=free)
    a = out(r)
    unchanged(H, "triangle after boot_cl", tri, s)
    same_views(H, "after boot_cl", tri, v)
    tri.base_cl(), tri.to_incr(), tri.a2a_avgs()
    boot.run(H, tri, sims=1, q=.9, free=[], parametric=True)
    H.eqs("boot_cl repeated", out(boot.run(H, tri, sims=2, q=.5, free=free)[0]), a)
    fresh, _, _ = cumtri(rows, n, p["labels"])
    H.eqs("boot_cl on a fresh triangle", out(boot.run(H, fresh, sims=2, q=.5, free=free)[0]), a)
    same_views(H, "after all", tri, v)
    # reports are reads
    r.get_quantiles([.1, .9]), r.get_quantiles(.5, lb=0), r.origin_dist, r.residuals_detail
    H.eqs("result after reading reports", out(r), a)


def h_base(H):
    p = H.params
    n = p["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n, p["labels"])
    s, v = snap(tri), views(tri)
    k = p["sel"]
    vals = [H.pos("sel%d" % j) for j in range(n - 1)]
    if k == "series":
        sel = pd.Series(column(vals), index=d[:-1])
    elif k == "array":
        sel = np.array(column(vals))
    elif k == "list":
        sel = list(vals)
    else:
        sel = k
    tail = H.pos("tail")
    a = base_out(tri.base_cl(sel=sel, tail=tail))
    unchanged(H, "triangle after base_cl", tri, s)
    if k == "series":
        H.same("sel index", list(sel.index), d[:-1])
    if k in ("series", "array", "list"):
        H.eqs("sel", list(sel), vals)
    # an unrelated estimate in between, then every property, then the same again
    tri.base_cl(sel="simple-1", tail=H.pos("tail2"))
    tri.to_incr(), tri.to_tbl(), tri.a2a, tri.a2a_avgs(), tri.latest, tri.maturity, tri.triind, tri.rlvi
    tri.diagonal(-1), tri.nbr_cells, tri.latest_by_origin, tri.latest_by_devp, tri.devp, tri.origins
    same_views(H, "after base_cl", tri, v)
    unchanged(H, "triangle after reading its properties", tri, s)
    H.eqs("base_cl repeated", base_out(tri.base_cl(sel=sel, tail=tail)), a)
    # a triangle that has been read from before and a fresh one agree
    fresh, _, _ = cumtri(rows, n, p["labels"])
    H.eqs("base_cl on a fresh triangle", base_out(fresh.base_cl(sel=sel, tail=tail)), a)


def h_mack(H):
    n = H.params["n"]
    rows, f = ratio_rows(H, n, g=True)
    tri, o, d = cumtri(rows, n, H.params["labels"])
    s, v = snap(tri), views(tri)
    # the development variance of the last period is a minimum: fix its case
    def run(t):
        m = t.mack_cl(alpha=H.params["alpha"], dist="norm", q=.75)
        return flatten(m.summary.drop(["maturity"], axis=1)) + list(m.ldfs) + list(m.devpvar) + list(m.ldfvar)
    a = run(tri)
    unchanged(H, "triangle after mack_cl", tri, s)
    same_views(H, "after mack_cl", tri, v)
    tri.a2a, tri.latest_by_origin, tri.to_incr()
    tri.mack_cl(alpha=2 - H.params["alpha"], dist="norm")
    H.eqs("mack_cl repeated", run(tri), a)
    unchanged(H, "triangle after three estimates", tri, s)
    fresh, _, _ = cumtri(rows, n, H.params["labels"])
    H.eqs("mack_cl on a fresh triangle", run(fresh), a)
    H.eqs("base_cl after mack_cl", base_out(tri.base_cl()), base_out(fresh.base_cl()))


def h_views(H):
    """tables handed out by a triangle can be edited without corrupting it."""
    n = H.params["n"]
    rows, f = ratio_rows(H, n)
    tri, o, d = cumtri(rows, n)
    want = base_out(tri.base_cl())
    for t in (tri.to_tbl(), tri.to_incr(), tri.diagonal(0), tri.to_tbl(dropna=False)):
        t.iloc[0, -1] = 5.
        t.iloc[:, 0] = 5.
    av = tri.a2a_avgs()
    av.iloc[:, :] = 9.
    r = tri.base_cl()
    r.trisqrd.iloc[:, :] = 9.
    r.ldfs.iloc[:] = 9.
    r.summary.iloc[:, 1:] = 9.
    H.eqs("base_cl after edits of returned tables", base_out(tri.base_cl()), want)
    H.frame("triangle after edits of returned tables", tri, o, d, pad(rows, n))


def jobs(tier):
    out = []
    n = 4 if tier == "quick" else 6
    for shape in ("tabular", "triangle"):
        for fmt in ("incr", "cum"):
            for tt in ("incr", "cum"):
                out.append({"name": "totri %s/%s -> %s" % (shape, fmt, tt), "fn": h_totri,
                            "params": dict(n=3, shape=shape, format=fmt, type=tt, extra=shape == "tabular"),
                            "bounds": "3x3, every real amount"})
    for sel in ("series", "array", "list", "all-weighted", "simple-2"):
        for lab in ("std", "months"):
            out.append({"name": "base_cl sel=%s %s" % (sel, lab), "fn": h_base,
                        "params": dict(n=n, sel=sel, labels=lab),
                        "bounds": "%dx%d, every positive triangle and factor" % (n, n)})
    out.append({"name": "edits of returned tables", "fn": h_views, "params": dict(n=n), "bounds": "%dx%d" % (n, n)})
    for m, kind, lab, free in [(3, "plain", "months", ["choice_3"]), (4, "falling", "std", ["gamma_15", "gamma_19"])] + (
            [(4, "recovery", "uneven", ["gamma_19", "gamma_31"]), (3, "plain", "std", ["choice_3", "choice_10"])] if tier != "quick" else []):
        out.append({"name": "boot_cl n=%d %s" % (m, lab), "fn": h_boot, "params": dict(n=m, kind=kind, labels=lab, free=free), "opts": {"generic": True},
                    "ints": False, "bounds": "%dx%d, one triangle, 2 simulations, draws %s free" % (m, m, free)})
    for al, lab in ((0, "months"), (1, "std"), (2, "uneven"), (1, "months")):
        out.append({"name": "mack_cl alpha=%d %s" % (al, lab), "fn": h_mack, "params": dict(n=4, alpha=al, labels=lab), "opts": {"generic": True}, "ints": False,
                    "bounds": "4x4, every positive strictly increasing triangle"})
    return out
