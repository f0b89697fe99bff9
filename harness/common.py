"""Shared pieces of the harnesses: labels, inputs, plain oracles."""
import math
import random

import numpy as np
import pandas as pd

nan = math.nan


def isnan(x):
    try:
        return x != x if isinstance(x, float) else False
    except Exception:
        return False


def labels(n, kind="std", m=None):
    """origins (n) and development periods (m or n)."""
    m = n if m is None else m
    if kind == "std":
        return [1981 + i for i in range(n)], [1 + j for j in range(m)]
    if kind == "ordinal":
        return [1 + i for i in range(n)], [j for j in range(m)]
    if kind == "months":
        return [2001 + i for i in range(n)], [12 * (j + 1) for j in range(m)]
    if kind == "uneven":
        return [1990 + i + (i > 1) * 3 for i in range(n)], [1 + j + j * (j + 1) // 2 for j in range(m)]
    if kind == "quarters":                  # 9 periods before 12: text order differs
        return [8 + i for i in range(n)], [3 * (j + 1) for j in range(m)]
    raise ValueError(kind)


def cells(n):
    return [(i, j) for i in range(n) for j in range(n - i)]


def orders(k, seed=7):
    """named orders of k records."""
    r = random.Random(seed)
    idx = list(range(k))
    sh1, sh2 = idx[:], idx[:]
    r.shuffle(sh1)
    r.shuffle(sh2)
    return {"sorted": idx, "reversed": idx[::-1], "shuffled": sh1, "shuffled2": sh2,
            "interleaved": idx[1::2] + idx[0::2]}


def table(recs, names=("origin", "dev", "value"), order=None, index=None, extra=False):
    """recs: list of (origin, dev, value)."""
    recs = [recs[k] for k in order] if order is not None else list(recs)
    d = {names[0]: [r[0] for r in recs], names[1]: [r[1] for r in recs], names[2]: column([r[2] for r in recs])}
    if extra:
        d = {"junk": ["x"] * len(recs), **d, "zz": list(range(len(recs)))}
    df = pd.DataFrame(d)
    if index is not None:
        df.index = index
    return df


def column(vals):
    """a value column: floats/ints when concrete, objects when symbolic."""
    if all(isinstance(v, (int, float)) for v in vals):
        return list(vals)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def grid(rows, origins, devs):
    """triangle-shaped frame from a list of rows (nan where unknown)."""
    d = {}
    for j, dv in enumerate(devs):
        d[dv] = column([rows[i][j] for i in range(len(origins))])
    return pd.DataFrame(d, index=origins, columns=devs)


def cumulate(inc):
    """rows of increments -> rows of running totals (nan stays nan)."""
    out = []
    for r in inc:
        t, o = None, []
        for v in r:
            if isnan(v):
                o.append(nan)
            else:
                t = v if t is None else t + v
                o.append(t)
        out.append(o)
    return out


def pad(rows, m):
    return [list(r) + [nan] * (m - len(r)) for r in rows]


def ratio_rows(H, n, names=("c", "f"), g=False):
    """cumulative rows C[i][j+1] = C[i][j]*f[i][j] with c, f > 0 free.

    Every positive triangle has exactly one such form.  With g the ratios are
    1+g, g > 0: every strictly increasing positive triangle."""
    rows, f = [], []
    for i in range(n):
        c = H.pos("%s%d" % (names[0], i))
        r, fi = [c], []
        for j in range(n - i - 1):
            x = H.pos("%s%d_%d" % (names[1], i, j))
            if g:
                x = 1 + x
            fi.append(x)
            r.append(r[-1] * x)
        rows.append(r)
        f.append(fi)
    return rows, f


def ordered_rows(H, n, seed=3, free=()):
    """positive triangle whose link ratios have one fixed strict order per
    development period (columns in `free` keep every order)."""
    r = random.Random(seed)
    rows, f = ratio_rows(H, n)
    for j in range(n - 1):
        if j in free:
            continue
        perm = list(range(n - 1 - j))
        r.shuffle(perm)
        for a in range(len(perm)):
            for b in range(a):
                H.assume(f[perm[b]][j] < f[perm[a]][j])
    return rows, f


def windows(n):
    """(row prefix, window length or 0 for all) of the averages table."""
    return [(k, k) for k in range(1, n - 1)] + [(0, 0)]


def avg_name(kind, k):
    return "%s-%d" % (kind, k) if k else "all-%s" % kind


def column_ratios(f, n, j):
    return [f[i][j] for i in range(n - 1 - j)]


def last(xs, k):
    return xs[-k:] if k else list(xs)


def mean(xs):
    return total(xs) / len(xs)


def prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def wmean(rows, n, j, idx):
    return total([rows[i][j + 1] for i in idx]) / total([rows[i][j] for i in idx])


def cumtri(rows, n, kind="std"):
    """the library's triangle for these cumulative rows (triangle-shaped; a table with its own column names for "quarters")."""
    from trikit import totri
    o, d = labels(n, kind)
    if kind == "quarters":
        nm = ("quarter", "age", "paid")
        recs = [(o[i], d[j], rows[i][j]) for i, j in cells(n)]
        return totri(table(recs, nm), tri_type="cum", data_format="cum", data_shape="tabular", origin=nm[0], dev=nm[1], value=nm[2]), o, d
    return totri(grid(pad(rows, n), o, d), tri_type="cum", data_format="cum", data_shape="triangle"), o, d


def inc_rows(H, n, first=">0", other=None, name="x"):
    return [[H.real("%s%d_%d" % (name, i, j), sign=first if j == 0 else other) for j in range(n - i)]
            for i in range(n)]


def total(xs):
    t = 0
    for x in xs:
        t = x if isinstance(t, int) and t == 0 else t + x
    return t


def scaled(H, rows, p):
    """the triangle in a free unit."""
    if not p.get("unit"):
        return rows
    u = H.pos("unit")
    return [[x * u for x in r] for r in rows]
