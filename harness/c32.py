"""Dataset loading: filters, measures, triangles."""
import contextlib
import random
from .common import *

OUTSIDE = ("the files' own contents (replaced by stand-in tables with free amounts; the bundled files are compared by size and "
           "total); more than 24 records; keys other than the listed layouts")

LOBS = ["comauto", "medmal", "wkcomp"]
CODES = [1767, 7080, 12]
NAMES = ["Alpha Grp", "Beta Ins Co", "Gamma Mut"]
SIZES = {"amw09": (55, 92741342.0), "autoliab": (55, 2197134), "glre": (105, 56531053), "raa": (55, 160987),
         "singinjury": (45, 11026482.3), "singproperty": (15, 25101206.26), "ta83": (55, 34358090)}


@contextlib.contextmanager
def file(frames):
    """pandas' reader hands out these tables; paths seen are returned."""
    import trikit.utils as u
    seen = []

    def read(path, *a, **k):
        seen.append(str(path))
        f = frames(str(path)) if callable(frames) else frames
        f = f.copy(deep=True)
        if k.get("usecols") is not None and not callable(k["usecols"]):
            f = f[[c for c in f.columns if c in list(k["usecols"])]]
        return f

    saved = [(pd, "read_csv", pd.read_csv)]
    for m in (u,):
        for nm in ("read_csv", "read_table"):
            if hasattr(m, nm):
                saved.append((m, nm, getattr(m, nm)))
    for m, k, _ in saved:
        setattr(m, k, read)
    try:
        yield seen
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


def records(p):
    """(lob, code, name, origin, dev, train) of every record."""
    r = random.Random(p["layout"])
    out = []
    n = p.get("n", 2)
    for lob, code, name in p["companies"]:
        for i in range(n):
            for j in range(n):
                if r.random() < p.get("keep", 1):
                    out.append((lob, code, name, 1988 + i, 1 + j, 1 if i + j < n else 0))
    if p.get("shuffle"):
        r.shuffle(out)
    return out


def table_of(H, recs):
    inc = [H.real("i%d" % k) for k in range(len(recs))]
    paid = [H.real("p%d" % k) for k in range(len(recs))]
    cols = list(zip(*recs))
    d = {"loss_key": list(cols[0]), "grcode": list(cols[1]), "grname": list(cols[2]), "origin": list(cols[3]), "dev": list(cols[4]),
         "incrd_loss": column(inc), "paid_loss": column(paid), "bulk_loss": column([H.real("b")] * len(recs)),
         "train_ind": list(cols[5]), "upper": ["u"] * len(recs)}
    return pd.DataFrame(d), inc, paid


def filters(p):
    names = [x[2] for x in p["companies"]]
    names = sorted(set(names), key=names.index)[:2]
    return [(lob, code, name) for lob in (None, "comauto", "medmal") for code in (None, 1767, 7080) for name in [None] + names]


def shown(x, first):
    """non-positive amounts of the first period are shown as 1."""
    return (1 if x <= 0 else x) if first else x


def h(H):
    import trikit
    p = H.params
    recs = records(p)
    f, inc, paid = table_of(H, recs)
    lob, code, name = H.pick("filter", filters(p))
    loss = H.pick("loss", ["incurred", "paid", "default"])
    train = H.pick("train", [True, False, "default"])
    kind = p.get("kind")
    kw = dict(lob=lob, grcode=code, grname=name)
    if loss != "default":
        kw["loss_type"] = loss
    if train != "default":
        kw["train_only"] = train
    if kind:
        kw["tri_type"] = kind
    vals = paid if loss == "paid" else inc
    keep = [k for k, x in enumerate(recs) if (lob is None or x[0] == lob) and (code is None or x[1] == code) and (name is None or x[2] == name)]
    if not keep:
        with file(f):
            H.raises("nothing like that", ValueError, lambda: trikit.load_lrdb(**kw))
        return
    keep = [k for k in keep if train is False or recs[k][5] == 1]
    if not keep:
        return
    with file(f):
        r = trikit.load_lrdb(**kw)
    if not kind:
        H.same("columns", list(r.columns), ["origin", "dev", "value"])
        H.same("index", list(map(int, r.index)), list(range(len(keep))))
        H.same("records", [(int(a), int(b)) for a, b in zip(r["origin"], r["dev"])], [recs[k][3:5] for k in keep])
        H.eqs("amounts", list(r["value"]), [vals[k] for k in keep])
        return
    cellsum = {}
    for k in keep:
        c = recs[k][3:5]
        cellsum[c] = cellsum[c] + vals[k] if c in cellsum else vals[k]
    H.same("type", type(r).__name__, {"c": "CumTriangle", "i": "IncrTriangle"}[kind[0]])
    o, d = sorted({c[0] for c in cellsum}), sorted({c[1] for c in cellsum})
    H.same("labels", [[int(x) for x in r.index], [int(x) for x in r.columns]], [o, d])
    for a in o:
        t = None
        for b in d:
            v = r.loc[a, b]
            if (a, b) not in cellsum:
                H.true("no record [%d,%d]" % (a, b), isnan(v))
                continue
            x = cellsum[a, b]
            t = x if t is None else t + x
            H.eq("cell [%d,%d]" % (a, b), v, shown(t if kind[0] == "c" else x, b == 1))


def h_bad(H):
    import trikit
    p = H.params
    f, inc, paid = table_of(H, records(p))
    what, kw = H.pick("request", [("lob", dict(lob="auto")), ("lob", dict(lob="")), ("code", dict(grcode=1)), ("code", dict(grcode=0)),
                                  ("name", dict(grname="Nobody")), ("name", dict(grname="")), ("loss", dict(loss_type="total")),
                                  ("loss", dict(loss_type="")), ("loss", dict(loss_type="x")),
                                  ("triangle", dict(tri_type="x")), ("triangle", dict(tri_type="triangle"))])
    kw = {**dict(lob=None, grcode=None, grname=None), **kw}
    with file(f):
        H.raises("unknown %s %r" % (what, kw), ValueError, lambda: trikit.load_lrdb(**kw))


def h_lists(H):
    import trikit
    recs = records(H.params)
    f, inc, paid = table_of(H, recs)
    with file(f):
        lobs, specs, names = trikit.get_lrdb_lobs(), trikit.get_lrdb_specs(), trikit.get_datasets()
    H.same("lines of business", list(lobs), sorted({x[0] for x in recs}))
    H.same("specs columns", list(specs.columns), ["loss_key", "grcode", "grname"])
    got = [(str(a), int(b), str(c)) for a, b, c in zip(*[specs[c] for c in specs.columns])]
    H.same("specs", sorted(got), sorted({x[:3] for x in recs}))
    H.same("specs in order", [x[:2] for x in got], sorted(x[:2] for x in got))
    H.same("datasets", list(names), sorted(SIZES))


def h_load(H):
    """the bundled samples, with the file's amounts replaced by free ones."""
    import trikit
    p = H.params
    name, kind = p["dataset"], p["kind"]
    d0 = trikit.load(name)
    H.same("records", len(d0), SIZES[name][0])
    H.eq("total", float(d0["value"].sum()), SIZES[name][1])
    n = len(d0)
    free = {k for k in (0, 3, n - 1)}
    raw = [H.real("x%d" % k) if k in free else H.const(float(x)) for k, x in enumerate(d0["value"])]
    f = pd.DataFrame({"note": ["z"] * n, "dev": list(d0["dev"]), "value": column(raw), "origin": list(d0["origin"])}, index=range(7, n + 7))
    with file(f) as seen:
        r = trikit.load(name, tri_type=kind) if kind else trikit.load(name)
        H.raises("unknown dataset", KeyError, lambda: trikit.load("nosuch"))
        H.raises("unknown kind", ValueError, lambda: trikit.load(name, tri_type="x"))
    H.same("one file per dataset", len(set(seen)), 1)
    keys = [(int(a), int(b)) for a, b in zip(d0["origin"], d0["dev"])]
    if not kind:
        H.same("columns", list(r.columns), ["origin", "dev", "value"])
        H.same("index", list(map(int, r.index)), list(range(n)))
        H.same("keys", [(int(a), int(b)) for a, b in zip(r["origin"], r["dev"])], keys)
        H.eqs("amounts", list(r["value"]), raw)
        return
    o, d = sorted({a for a, _ in keys}), sorted({b for _, b in keys})
    H.same("labels", [[int(x) for x in r.index], [int(x) for x in r.columns]], [o, d])
    val = dict(zip(keys, raw))
    for a in o:
        t = None
        for b in d:
            if (a, b) not in val:
                H.true("no record [%d,%d]" % (a, b), isnan(r.loc[a, b]))
                continue
            x = val[a, b]
            t = x if t is None else t + x
            H.eq("cell [%d,%d]" % (a, b), r.loc[a, b], shown(t if kind == "cum" else x, b == d[0]))


def jobs(tier):
    a, b, c = zip(LOBS, CODES, NAMES)
    sets = {
        "three companies": [a, b, c],
        "shared code": [a, ("comauto", 1767, "Alpha Grp Mutual"), ("medmal", 1767, "alpha grp")],
        "shared name": [("medmal", 1767, "Alpha Grp"), ("comauto", 7080, "Alpha Grp"), ("comauto", 1767, "Alpha Grp")],
        "one company, two lines": [a, ("medmal", 1767, "Alpha Grp"), ("comauto", 7080, "Beta Ins Co")],
    }
    out = []

    def add(name, fn, what, **p):
        out.append({"name": name, "fn": fn, "params": p, "bounds": what, "ints": False})

    for k, (s, cs) in enumerate(sets.items()):
        add("records: " + s, h, "every amount, 27 filters x 3 measures x 3 training options", companies=cs, layout=k, n=2, shuffle=k % 2 == 1)
        for kind in (("cum", "incr") if k % 2 else ("incr", "c")):
            add("%s triangle: %s" % (kind, s), h, "every amount, 27 filters x 3 measures x 3 training options", companies=cs, layout=k,
                n=2, kind=kind, shuffle=k % 2 == 0)
        add("lists: " + s, h_lists, "stand-in tables", companies=cs, layout=k, shuffle=True)
    add("records with gaps", h, "every amount, 3x3 with records left out", companies=sets["shared name"], layout=5, n=3, keep=.6)
    add("unknown requests", h_bad, "11 requests", companies=sets["three companies"], layout=1)
    for nm in SIZES:
        for kind in (None, "cum", "incr"):
            add("sample %s as %s" % (nm, kind or "table"), h_load, "bundled keys, three amounts free", dataset=nm, kind=kind)
    return out
