"""Residuals, scale and sampling distribution."""
from .common import *
from . import boot

OUTSIDE = ("triangles with more origins than development periods or the reverse; more than 3 periods except fixed triangles "
           "with free cells; degrees of freedom other than the model's or the recorded finding's are violations")


def h(H):
    p = H.params
    n = p["n"]
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, n, p["labels"])
    r = boot.quiet(tri, sims=1, q=.5)
    fit = [[r.fitted_tri_incr.iloc[i, j] for j in range(n - i)] for i in range(n)]
    act = [[row[0]] + [row[j] - row[j - 1] for j in range(1, len(row))] for row in rows]
    cells_ = n * (n + 1) // 2
    # the finding: n is added where the model subtracts it
    H.true("degrees of freedom", int(r.dof) in (cells_ - (n - 1) - n, cells_ - (n - 1) + n))
    us, ad = r.unscaled_residuals, r.adjusted_residuals
    H.same("labels", [[int(x) for x in us.index], [int(x) for x in us.columns], [int(x) for x in ad.index], [int(x) for x in ad.columns]],
           [o, d, o, d])
    k = boot.sqrt(H.const(cells_) / int(r.dof))
    for i in range(n):
        for j in range(n):
            t = "[%s,%s]" % (o[i], d[j])
            if j >= n - i:
                H.true("no residual beyond the diagonal" + t, isnan(us.iloc[i, j]) and isnan(ad.iloc[i, j]))
                continue
            m = abs(fit[i][j])
            H.eq("residual" + t, us.iloc[i, j], (act[i][j] - fit[i][j]) / boot.sqrt(m))
            H.eq("adjusted residual" + t, ad.iloc[i, j], us.iloc[i, j] * k)
    ssq = total([us.iloc[i, j] * us.iloc[i, j] for i, j in cells(n)])
    H.eq("scale", r.scale_param * int(r.dof), ssq)
    # drop the corners: the last origin and the last period fit exactly
    H.eqs("zero by construction", [us.iloc[n - 1, 0], us.iloc[0, n - 1]], [0, 0])
    want = [ad.iloc[i, j] for i, j in cells(n) if (i, j) not in ((n - 1, 0), (0, n - 1))]
    want = [x for x in want if not x == 0]
    sd = list(r.sampling_dist)
    H.same("size of the sampling distribution", len(sd), len(want))
    if len(sd) == len(want):
        H.eqs("sampling distribution", sd, want)


def jobs(tier):
    out = []
    for n, lab, order in [(3, "std", None), (3, "months", None)]:
        out.append(boot.job("n=%d %s" % (n, lab), h, "%dx%d, every positive triangle" % (n, n), n=n, labels=lab, order=order))
    for n, lab, kind, free in [(6, "std", "recovery", [(1, 2)]), (6, "months", "falling", [(2, 1)]),
                               (5, "uneven", "plain", [(3, 0)]), (4, "ordinal", "rising", [(0, 1), (1, 2), (2, 1), (1, 0)]),
                               (5, "std", "rising", [(0, 1), (2, 2), (4, 0)]), (7, "months", "rising", [(3, 2), (0, 5)])]:
        out.append(boot.job("n=%d %s %s" % (n, lab, kind), h, "%dx%d, a fixed triangle with free increments at %s" % (n, n, free),
                            n=n, labels=lab, kind=kind, free=free))
    for n, lab, kind in [(4, "quarters", "plain"), (5, "uneven", "recovery"), (6, "std", "falling")]:
        out += boot.tri_jobs(h, [(n, lab, kind, 1)], "", unit=True)
    for n, lab in [(8, "months"), (10, "ordinal")]:
        out += boot.tri_jobs(h, [(n, lab, "rising", 1)], "", unit=True, free=[])
    return out
