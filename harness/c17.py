"""Mack's factors."""
from .common import *
from .mack import *

OUTSIDE = "triangles that are not strictly increasing; more than 4 periods except with the stated free cells"


def h(H):
    p = H.params
    n, al = p["n"], p["alpha"]
    rows, tri, o, d, r = run(H, p)
    ind = indicator(n, p)
    want = []
    for j in range(n - 1):
        w, f = weights(rows, n, j, al, ind), ratios(rows, n, j, ind)
        want.append(total([a * b for a, b in zip(w, f)]) / total(w))
    H.series("ldfs", r.ldfs, d, want + [1])
    lat = [rows[i][-1] for i in range(n)]
    ld = list(r.ldfs)
    cld = [prod(ld[n - 1 - i:]) for i in range(n)]
    s = r.summary
    H.same("index", [x if isinstance(x, str) else int(x) for x in s.index], o + ["total"])
    H.eqs("cldf", list(s["cldf"]), cld + [nan])
    H.eqs("emergence", list(s["emergence"]), [1 / x for x in cld] + [nan])
    H.same("maturity", list(s["maturity"]), [str(x) for x in d[::-1]] + [""])
    H.eqs("latest", list(s["latest"]), lat + [total(lat)])
    H.eqs("ultimate", list(s["ultimate"])[:-1], [a * b for a, b in zip(lat, cld)])
    H.eqs("reserve", list(s["reserve"])[:-1], [s["ultimate"].iloc[i] - lat[i] for i in range(n)])
    H.eqs("totals", [s["ultimate"].iloc[-1], s["reserve"].iloc[-1]],
          [total(list(s["ultimate"])[:-1]), total(list(s["reserve"])[:-1])])
    if al == 1 and p.get("free") is not None:      # the averages table sorts the ratios: few free cells
        b = tri.base_cl(sel="all-weighted")
        H.eqs("chain ladder factors", list(r.ldfs), list(b.ldfs))
        H.eqs("chain ladder ultimates", list(r.ultimate), list(b.ultimate))
        H.eqs("chain ladder reserves", list(r.reserve), list(b.reserve))


def jobs(tier):
    out = jobs_for(h, tier)
    for al in (0, 1, 2):
        out.append({"name": "n=5 alpha=%d with exclusions" % al, "fn": h,
                    "params": dict(n=5, alpha=al, labels=("months", "std", "ordinal")[al], excl=[(0, 0), (2, 1)],
                                   free=[(0, 1), (1, 1), (3, 1)]),
                    "opts": {"generic": True}, "ints": False,
                    "bounds": "5x5, two exclusions, three free cells"})
    return out
