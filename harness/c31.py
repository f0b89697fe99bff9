"""Reproducible bootstrap randomness."""
import numpy.random as npr
from .common import *
from . import boot

OUTSIDE = ("the generator's own algorithm; more than 3 periods or 2 simulations; seeds other than the listed ones")

SEEDS = {"int": 1, "zero": 0, "int64": np.int64(7), "int32": np.int32(5), "zero int64": np.int64(0), "uint8": np.uint8(9),
         "big": 2**32 - 1, "int and int64 agree": 3}


def same(H, what, a, b):
    for nm in ("summary", "sims_data", "reserve_dist"):
        x, y = getattr(a, nm), getattr(b, nm)
        H.same("%s %s shape" % (what, nm), [list(map(str, x.columns)), list(map(str, x.index))],
               [list(map(str, y.columns)), list(map(str, y.index))])
        for c in x.columns:
            H.eqs("%s %s.%s" % (what, nm, c), list(x[c]), list(y[c]))


def state():
    s = npr.get_state()
    return [s[0], list(map(int, s[1])), int(s[2]), int(s[3]), float(s[4])]


def h(H):
    p = H.params
    rows = boot.rows_for(H, p)
    n, kw = p["n"], dict(sims=p["sims"], q=.5, parametric=p.get("parametric", False))
    tri, o, d = cumtri(rows, n, p["labels"])
    Stub, log = boot.source(H)
    saved = npr.get_state()
    try:
        with boot.patched(Stub):
            if p["seed"] == "generator":
                a, b = Stub(11), Stub(11)
                del log[:]
                first = tri.boot_cl(random_state=a, **kw)
                used = a.k
                npr.seed(4)
                s0 = state()
                again = tri.boot_cl(random_state=b, **kw)
                same(H, "same state", again, first)
                H.same("no other generator", [x for x in log if isinstance(x, tuple)], [])
                H.true("draws come from the given generator", used > 0)
                H.same("both use it alike", b.k, used)
                # a used generator goes on, it does not start over
                third = tri.boot_cl(random_state=a, **kw)
                H.same("the generator goes on", a.k, 2 * used)
                H.same("global generator", state(), s0)
                return
            seed = SEEDS[p["seed"]]
            other = np.int64(seed) if p["seed"] == "int and int64 agree" else seed
            npr.seed(12)
            s0 = state()
            first = tri.boot_cl(random_state=seed, **kw)
            H.same("global generator", state(), s0)
            npr.seed(99)
            s1 = state()
            diff = tri.boot_cl(random_state=2 if seed != 2 else 6, **kw)
            again = tri.boot_cl(random_state=other, **kw)
            H.same("global generator afterwards", state(), s1)
            same(H, "same seed", again, first)
            fresh, _, _ = cumtri(rows, n, p["labels"])
            same(H, "same seed, equal triangle", fresh.boot_cl(random_state=other, **kw), first)
            news = [int(x[1]) if x[1] is not None else None for x in log if isinstance(x, tuple)]
            H.true("generators have the given seed", set(news) <= {int(seed), 2, 6} and int(seed) in news)
            xs = [x for x in list(first.sims_data["final_incr"]) + list(diff.sims_data["final_incr"])]
            H.true("another seed draws anew", len([c for c in log if isinstance(c, boot.Call)]) > 0)
    finally:
        npr.set_state(saved)


def h_free(H):
    """no seed: nothing is repeated and the process-wide generator is not reset."""
    p = H.params
    rows = boot.rows_for(H, p)
    tri, o, d = cumtri(rows, p["n"], p["labels"])
    Stub, log = boot.source(H)
    with boot.patched(Stub):
        a = tri.boot_cl(sims=1, q=.5)
        tri.boot_cl(sims=1, q=.5, random_state=1)
        k = [x[1] for x in log if isinstance(x, tuple)]
        H.true("an earlier seed is not used", 1 in k)
        del log[:]
        b = tri.boot_cl(sims=1, q=.5)
        H.same("no seed is left over", [x[1] for x in log if isinstance(x, tuple) and x[1] is not None], [])


def jobs(tier):
    out = []
    for k, s in enumerate(list(SEEDS) + ["generator"]):
        lab = ["std", "months", "uneven", "ordinal"][k % 4]
        out.append(boot.job("seed: %s" % s, h, "3x3, one triangle, every draw, seed %s" % SEEDS.get(s, s), n=3, labels=lab,
                            kind="plain", sims=1, seed=s))
    for s in ("int", "generator"):
        out.append(boot.job("parametric, seed: %s" % s, h, "3x3, one triangle, every draw", n=3, labels="std", kind="plain", sims=1,
                            seed=s, parametric=True))
        out.append(boot.job("two simulations, seed: %s" % s, h, "3x3, one triangle, every draw", n=3, labels="months", kind="plain",
                            sims=2, seed=s))
        out.append(boot.job("free cells, seed: %s" % s, h, "3x3, every positive latest origin, every draw", n=3, labels="std",
                            kind="plain", sims=1, seed=s, free=((2, 0),)))
    out.append(boot.job("no seed", h_free, "3x3, one triangle, every draw", n=3, labels="std", kind="plain"))
    return out
