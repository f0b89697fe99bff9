"""Let the real numpy / pandas / scipy carry Syms in object arrays.

Every shim acts only when a Sym is present (or, for float allocations, when the
caller is trikit); otherwise the original function runs.  No code of trikit is
replaced.
"""
import functools
import math
import operator
import sys
import builtins
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd
from pandas.core import nanops
from pandas.core.groupby import generic as gb_generic
from pandas.core.groupby.groupby import GroupBy

from . import core
from .core import Sym, SymBool, EngineLimit, ite, lift

nan = math.nan


def is_nan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    if x is None:
        return True
    if x is pd.NaT or x is pd.NA:
        return True
    try:
        return x != x
    except Exception:
        return False


def _has(a):
    """does an object ndarray hold a Sym?"""
    for x in a.ravel():
        if isinstance(x, (Sym, SymBool)):
            return True
    return False


def obj(a):
    """object ndarray behind a (array, Series, DataFrame, list), or None when
    it holds no Sym."""
    if isinstance(a, Sym) or isinstance(a, SymBool):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, np.ndarray):
        b = a.view(np.ndarray) if type(a) is not np.ndarray else a
        if b.dtype == object and _has(b):
            return b
        return None
    if isinstance(a, (pd.Series, pd.DataFrame, pd.Index)):
        if isinstance(a, pd.DataFrame):
            if not any(t == object for t in a.dtypes):
                return None
        elif a.dtype != object:
            return None
        b = np.asarray(a)
        return b if b.dtype == object and _has(b) else None
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (Sym, SymBool)) for x in a) or any(
                isinstance(x, (list, tuple, np.ndarray, pd.Series)) and obj(x) is not None for x in a):
            return np_array(a, dtype=object)
    return None


def like(res, a):
    """wrap elementwise result as the container of a."""
    if isinstance(a, pd.Series):
        return pd.Series(res, index=a.index, name=a.name)
    if isinstance(a, pd.DataFrame):
        return pd.DataFrame(res, index=a.index, columns=a.columns)
    if isinstance(res, np.ndarray) and res.ndim == 0:
        return res[()]
    if isinstance(res, np.ndarray) and res.dtype == object:
        return res.view(SymArray)
    return res


def box(x):
    """keep numpy floats in object arrays: they divide by zero quietly."""
    return x


def engine_data(o):
    """holds Syms, or object columns of plain numbers (float columns in a concrete run)."""
    if obj(o) is not None:
        return True
    cols = [o] if isinstance(o, pd.Series) else [o.iloc[:, j] for j in range(o.shape[1])]
    return any(c.dtype == object and len(c) and all(x is None or isinstance(x, (int, float)) and not isinstance(x, bool)
                                                    for x in c) for c in cols)


class SymArray(np.ndarray):
    """object array holding Syms: comparisons stay symbolic, astype(float) is
    the identity on Syms."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _is_float_dtype(dtype) and obj(self) is not None:
            return self.copy()
        if self.dtype == object and _is_int_dtype(dtype) and obj(self) is not None:
            return _map(lambda v: v.trunc() if isinstance(v, Sym) else int(v), self).view(SymArray)
        return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)

    def _lazy(self, o, uf, name):
        if self.dtype == object and obj(self) is not None or (
                isinstance(o, np.ndarray) and o.dtype == object and obj(o) is not None):
            return uf(_plain(self), _plain(o), dtype=object).view(SymArray)
        return uf(_plain(self), _plain(o))

    def __lt__(self, o):
        return self._lazy(o, np.less, "lt")

    def __le__(self, o):
        return self._lazy(o, np.less_equal, "le")

    def __gt__(self, o):
        return self._lazy(o, np.greater, "gt")

    def __ge__(self, o):
        return self._lazy(o, np.greater_equal, "ge")

    def __eq__(self, o):
        return self._lazy(o, np.equal, "eq")

    def __ne__(self, o):
        return self._lazy(o, np.not_equal, "ne")

    __hash__ = None

    def __truediv__(self, o):
        return safe_div(_plain(self), o)

    def __rtruediv__(self, o):
        return safe_div(o, _plain(self))

    def __getitem__(self, i):
        if isinstance(i, np.ndarray) and i.dtype == object:
            i = to_bool(i)
        r = np.ndarray.__getitem__(self, i)
        return r

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return red_axis(self, axis, lambda v: r_std(v, ddof))

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return red_axis(self, axis, lambda v: r_var(v, ddof))

    def mean(self, axis=None, *a, **k):
        return red_axis(self, axis, r_mean)

    def sum(self, axis=None, *a, **k):
        return red_axis(self, axis, r_sum)

    def min(self, axis=None, *a, **k):
        return red_axis(self, axis, r_min)

    def max(self, axis=None, *a, **k):
        return red_axis(self, axis, r_max)

    def round(self, decimals=0, out=None):
        return _map(lambda v: round_to(v, decimals), self).view(SymArray)


def round_to(v, n=0):
    if isinstance(v, Sym):
        return v.__round__(n)
    return v if v is None or is_nan(v) else float(np.ndarray.round(np.array(float(v)), n))


def _plain(o):
    return o.view(np.ndarray) if isinstance(o, np.ndarray) and type(o) is not np.ndarray else o


def safe_div(a, b):
    """elementwise a / b; plain floats divide as numpy floats do."""
    if isinstance(b, (pd.Series, pd.DataFrame)):
        return NotImplemented
    r = safe_op(operator.truediv, a, b)
    return r.view(SymArray) if isinstance(r, np.ndarray) and r.dtype == object else r


def safe_op(op, a, b):
    try:
        return op(_plain(a), _plain(b))
    except ZeroDivisionError:
        f = np.frompyfunc(lambda x, y: op(_np(x), _np(y)), 2, 1)
        with np.errstate(all="ignore"):
            return f(_plain(a), _plain(b))


def _np(x):
    return np.float64(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def to_bool(a):
    return np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)


def _is_float_dtype(d):
    try:
        return d in (float, "float", "float64", "f8", np.float64, np.float32) or (
            isinstance(d, np.dtype) and d.kind == "f")
    except TypeError:
        return False


def _is_int_dtype(d):
    try:
        return d in (int, "int", "int64", "i8", np.int64, np.int32) or (
            isinstance(d, np.dtype) and d.kind in "iu")
    except TypeError:
        return False


def _map(f, a):
    r = np.empty(a.shape, dtype=object)
    fr, fa = r.reshape(-1), a.reshape(-1)
    for i in range(fa.shape[0]):
        fr[i] = f(fa[i])
    return fr.reshape(a.shape)


# ------------------------------------------------------------ reductions (1-d)
def num(v):
    return v


def r_sum(v):
    t = 0.0
    for x in v:
        t = x if (isinstance(t, float) and t == 0.0 and not is_nan(x)) else t + x
    return t


def r_prod(v):
    t = 1.0
    for x in v:
        t = t * x
    return t


def r_mean(v):
    v = list(v)
    return r_sum(v) / len(v) if len(v) else nan


def r_var(v, ddof=0):
    v = list(v)
    n = len(v)
    if n - ddof <= 0:
        return nan
    m = r_mean(v)
    if isinstance(m, Sym) and len(m.p) > 40:
        m = core.alias(m.p)
    return r_sum([(x - m) * (x - m) for x in v]) / (n - ddof)


def s_sqrt(x):
    if isinstance(x, Sym):
        return x.sqrt()
    x = float(x)
    return math.sqrt(x) if x >= 0 else nan


def r_std(v, ddof=0):
    x = r_var(v, ddof)
    # a sum of squares
    return x.sqrt(nonneg=True) if isinstance(x, Sym) else s_sqrt(x)


def r_min(v):
    v = list(v)
    m = v[0]
    for x in v[1:]:
        if is_nan(m) or is_nan(x):
            return nan
        if x < m:
            m = x
    return m


def r_max(v):
    v = list(v)
    m = v[0]
    for x in v[1:]:
        if is_nan(m) or is_nan(x):
            return nan
        if x > m:
            m = x
    return m


def _key_sorted(v):
    return sorted(v, key=functools.cmp_to_key(lambda a, b: -1 if bool(a < b) else (1 if bool(b < a) else 0)))


def s_sort(v):
    v = list(v)
    out = []
    for x in v:                      # insertion sort: few, adjacent comparisons
        i = len(out)
        while i > 0 and bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def r_median(v):
    v = s_sort(v)
    n = len(v)
    if n == 0:
        return nan
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def lazily(f, v):
    if len(v) > 1 and any(isinstance(x, Sym) for x in v) and all(isinstance(x, Sym) or (
            isinstance(x, (int, float, np.number)) and math.isfinite(x)) for x in v):
        return core.Lazy(f)
    return f()


def r_quantile(v, q, method="linear"):
    v = list(v)
    return lazily(lambda: _quantile(v, q, method), v)


def _quantile(v, q, method="linear"):
    v = s_sort(v)
    n = len(v)
    if n == 0:
        return nan
    q = float(q)
    pos = q * (n - 1)
    lo = int(math.floor(pos))
    hi = builtins.min(lo + 1, n - 1)
    f = pos - lo
    if method == "linear":
        return v[lo] + (v[hi] - v[lo]) * f if f else v[lo]
    if method == "lower":
        return v[lo]
    if method == "higher":
        return v[hi] if f > 0 else v[lo]
    if method == "midpoint":
        return (v[lo] + v[hi]) / 2 if f > 0 else v[lo]
    if method == "nearest":
        # the rounding numpy itself applies to this (concrete) position
        k = int(_orig_percentile(np.arange(n), 100 * q, method="nearest"))
        return v[k]
    raise EngineLimit("quantile method " + str(method))


def dropna(v):
    return [x for x in v if not is_nan(x)]


def red_axis(a, axis, f):
    b = _plain(a)
    if axis is None:
        return f(list(b.ravel()))
    if axis < 0:
        axis += b.ndim
    if b.ndim == 1:
        return f(list(b))
    if axis == 0:
        r = [f(list(b[:, j])) for j in range(b.shape[1])]
    else:
        r = [f(list(b[i, :])) for i in range(b.shape[0])]
    out = np.empty(len(r), dtype=object)
    for i, x in enumerate(r):
        out[i] = x
    return out.view(SymArray)


# ------------------------------------------------------------- numpy functions
def _f1(symf, floatf):
    def g(x):
        if isinstance(x, SymBool):
            x = lift(ite(x, 1, 0))
        if isinstance(x, Sym):
            return symf(x)
        if x is None:
            return nan
        return floatf(x)
    return g


def _np1(f):
    def g(x):
        with np.errstate(all="ignore"):
            return float(f(np.float64(x)))
    return g


class UfuncShim:
    def __init__(self, orig, el):
        self.__dict__["orig"] = orig
        self.__dict__["el"] = el

    def __call__(self, *args, **kw):
        args = tuple(_plain(a) for a in args)
        if len(args) == 1 and not kw:
            a = args[0]
            if isinstance(a, (Sym, SymBool)):
                return self.el(a)
            if isinstance(a, pd.DataFrame):
                if any(t == object for t in a.dtypes):
                    if obj(a) is not None or self.orig.__name__ in ("isnan", "isfinite", "isinf"):
                        return like(self._wrap(_map(self.el, np.asarray(a, dtype=object))), a)
            elif isinstance(a, pd.Series) and a.dtype == object:
                return like(self._wrap(_map(self.el, np.asarray(a, dtype=object))), a)
            elif isinstance(a, np.ndarray) and a.dtype == object:
                return like(self._wrap(_map(self.el, a)), a)
            elif isinstance(a, (list, tuple)):
                b = obj(a)
                if b is not None:
                    return like(self._wrap(_map(self.el, b)), b)
        return self.orig(*args, **kw)

    def _wrap(self, r):
        if self.orig.__name__ in ("isnan", "isfinite", "isinf"):
            return r.astype(bool)
        return r

    def __getattr__(self, n):
        return getattr(self.orig, n)


class FnShim:
    def __init__(self, fn, orig):
        self.__dict__["fn"] = fn
        self.__dict__["orig"] = orig
        self.__dict__["__name__"] = getattr(orig, "__name__", "f")

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self.orig, n)


def setnp(name, fn):
    setattr(np, name, FnShim(fn, getattr(np, name)))


def install():
    """patch numpy / pandas / scipy in this process (once)."""
    global np_array, _orig_percentile
    if getattr(np, "_symx", False):
        return
    np._symx = True
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    _orig_percentile = np.percentile

    # --- elementwise
    els = {
        "sqrt": _f1(Sym.sqrt, _np1(np.sqrt)),
        "exp": _f1(Sym.exp, _np1(np.exp)),
        "log": _f1(Sym.log, _np1(np.log)),
        "log1p": _f1(Sym.log1p, _np1(np.log1p)),
        "expm1": _f1(Sym.expm1, _np1(np.expm1)),
        "floor": _f1(Sym.floor, _np1(np.floor)),
        "ceil": _f1(Sym.ceil, _np1(np.ceil)),
        "trunc": _f1(Sym.trunc, _np1(np.trunc)),
        "rint": _f1(Sym.rint, _np1(np.rint)),
        "absolute": _f1(Sym.__abs__, abs),
        "fabs": _f1(Sym.__abs__, abs),
        "square": _f1(Sym.square, lambda x: x * x),
        "sign": _f1(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)), _np1(np.sign)),
        "isnan": lambda x: False if isinstance(x, (Sym, SymBool)) else bool(is_nan(x)),
        "isfinite": lambda x: True if isinstance(x, (Sym, SymBool)) else bool(math.isfinite(x)),
        "isinf": lambda x: False if isinstance(x, (Sym, SymBool)) else bool(math.isinf(x)),
    }
    for n, el in els.items():
        sh = UfuncShim(getattr(np, n), el)
        setattr(np, n, sh)
    np.abs = np.absolute

    # logical ops keep symbolic booleans
    def logical(name, py):
        orig = getattr(np, name)

        def f(*args, **kw):
            bs = [obj(a) for a in args]
            if any(b is not None for b in bs):
                arrs = [np.asarray(a, dtype=object) for a in args]
                arrs = np.broadcast_arrays(*arrs)
                out = np.empty(arrs[0].shape, dtype=object)
                for i in np.ndindex(*out.shape):
                    out[i] = py(*[a[i] for a in arrs])
                if not _has(out):
                    return like(out.astype(bool), next((a for a in args if isinstance(a, pd.Series)), out))
                return like(out, next((a for a in args if isinstance(a, pd.Series)), out))
            return orig(*[_plain(a) for a in args], **kw)
        setnp(name, f)

    def b2(x):
        return x if isinstance(x, SymBool) else bool(x)
    logical("logical_and", lambda a, b: (b2(a) and b2(b)) if not (isinstance(a, SymBool) or isinstance(b, SymBool))
            else (SymBool(("and", [SymBool.of(a), SymBool.of(b)]))))
    logical("logical_or", lambda a, b: (b2(a) or b2(b)) if not (isinstance(a, SymBool) or isinstance(b, SymBool))
            else (SymBool(("or", [SymBool.of(a), SymBool.of(b)]))))
    logical("logical_not", lambda a: ~a if isinstance(a, SymBool) else not a)

    # --- array construction
    orig_array, orig_asarray, orig_asany = np.array, np.asarray, np.asanyarray
    np_array = orig_array

    def arr_shim(orig):
        def f(a, dtype=None, *args, **kw):
            if dtype is not None and (_is_float_dtype(dtype) or _is_int_dtype(dtype)):
                b = obj(a)
                if b is not None:
                    r = orig_array(b, dtype=object, copy=True, ndmin=kw.get("ndmin", 0)).view(SymArray)
                    return r.astype(dtype) if _is_int_dtype(dtype) else r
            if isinstance(a, Sym):
                r = np.empty((), dtype=object)
                r[()] = a
                return r
            if dtype is None:
                return orig(a, *args, **kw)
            return orig(a, dtype, *args, **kw)
        return f
    np.array, np.asarray, np.asanyarray = arr_shim(orig_array), arr_shim(orig_asarray), arr_shim(orig_asany)

    def in_trikit():
        f = sys._getframe(2)
        fn = f.f_code.co_filename
        return "/trikit/" in fn

    for nm, has_fill in (("zeros", False), ("ones", False), ("empty", False), ("full", True),
                         ("zeros_like", False), ("ones_like", False), ("empty_like", False), ("full_like", True)):
        def mk(nm=nm, has_fill=has_fill, orig=getattr(np, nm)):
            def f(*args, **kw):
                r = orig(*[_plain(a) if not isinstance(a, Sym) else 0 for a in args], **kw) \
                    if not (has_fill and builtins.any(isinstance(a, Sym) for a in list(args) + list(kw.values()))) \
                    else None
                if r is None:
                    shape = args[0] if not isinstance(args[0], np.ndarray) else args[0].shape
                    fill = kw.get("fill_value", args[1] if len(args) > 1 else None)
                    r = np.empty(shape, dtype=object)
                    for i in np.ndindex(*r.shape):
                        r[i] = fill
                    return r.view(SymArray)
                if r.dtype.kind == "f" and in_trikit():
                    r = r.astype(object).view(SymArray)
                return r
            return f
        setnp(nm, mk())

    # --- reductions
    def red(name, f1, nanskip=False, ddof=False):
        orig = getattr(np, name)

        def f(a, axis=None, *args, **kw):
            b = obj(a)
            if b is None:
                return orig(a, axis, *args, **kw) if axis is not None or args else orig(a, **kw)
            if isinstance(a, (pd.Series, pd.DataFrame)):
                nm = name.replace("nan", "")
                nm = {"amin": "min", "amax": "max"}.get(nm, nm)
                if isinstance(a, pd.Series) or axis is not None:
                    kk = {"axis": axis} if axis is not None else {}
                    if "ddof" in kw:
                        kk["ddof"] = kw["ddof"]
                    elif nm in ("std", "var"):
                        kk["ddof"] = 0
                    return getattr(a, nm)(**kk)
            kk = {"ddof": kw.get("ddof", 0)} if ddof else {}
            return red_axis(b, axis, lambda v: f1(dropna(v) if nanskip else v, **kk))
        setnp(name, f)
    red("sum", r_sum)
    red("nansum", r_sum, True)
    red("prod", r_prod)
    red("mean", r_mean)
    red("nanmean", r_mean, True)
    red("var", r_var, ddof=True)
    red("std", r_std, ddof=True)
    red("nanvar", r_var, True, ddof=True)
    red("nanstd", r_std, True, ddof=True)
    red("median", r_median)
    red("nanmedian", r_median, True)
    red("min", r_min)
    red("max", r_max)
    red("amin", r_min)
    red("amax", r_max)
    red("nanmin", r_min, True)
    red("nanmax", r_max, True)

    orig_avg = orig_avg0 = np.average

    def average(a, axis=None, weights=None, **kw):
        b, w = obj(a), obj(weights) if weights is not None else None
        if b is None and w is None:
            return orig_avg(a, axis=axis, **kw) if weights is None else orig_avg0(a, axis=axis, weights=weights, **kw)
        b = orig_array(a, dtype=object).ravel()
        if weights is None:
            return r_mean(list(b))
        w = orig_array(weights, dtype=object).ravel()
        return r_sum([x * y for x, y in zip(b, w)]) / r_sum(list(w))
    setnp("average", average)

    def quant(name, scale, nanskip=False):
        orig = getattr(np, name)

        def f(a, q, axis=None, *args, **kw):
            b = obj(a)
            if b is None:
                return orig(a, q, axis, *args, **kw)
            method = kw.get("method", kw.get("interpolation", "linear")) or "linear"
            qs = orig_asarray(q, dtype=float)
            if np.any((qs > scale) | (qs < 0)):
                raise ValueError("Percentiles must be in the range [0, 100]")

            def one(v, x):
                if nanskip:
                    v = dropna(v)
                elif builtins.any(is_nan(y) for y in v):
                    return nan
                return r_quantile(v, x / scale, method)
            if qs.ndim == 0:
                return red_axis(b, axis, lambda v: one(v, float(qs)))
            return orig_array([red_axis(b, axis, lambda v: one(v, float(x))) for x in qs], dtype=object).view(SymArray)
        setnp(name, f)
    quant("percentile", 100.0)
    quant("quantile", 1.0)
    quant("nanpercentile", 100.0, True)
    quant("nanquantile", 1.0, True)

    # --- others
    def over(*names):
        def deco(fn):
            for name in names:
                if not hasattr(np, name):
                    continue
                orig = getattr(np, name)

                def f(*a, _orig=orig, **k):
                    return fn(_orig, *a, **k)
                setnp(name, f)
            return fn
        return deco

    @over("where")
    def where(orig, cond, *xy):
        cond = _plain(cond) if isinstance(cond, np.ndarray) else cond
        if not xy:
            if isinstance(cond, np.ndarray) and cond.dtype == object:
                cond = to_bool(cond)
            return orig(cond)
        x, y = [(_plain(v) if isinstance(v, np.ndarray) else v) for v in xy]
        if obj(cond) is not None or obj(x) is not None or obj(y) is not None:
            c, x, y = np.broadcast_arrays(orig_asarray(cond, dtype=object), obj(x) if isinstance(x, Sym) else orig_asarray(x, dtype=object),
                                          obj(y) if isinstance(y, Sym) else orig_asarray(y, dtype=object))
            out = np.empty(c.shape, dtype=object)
            for i in np.ndindex(*c.shape):
                b = c[i]
                if isinstance(b, SymBool):
                    if _isnumber(x[i]) and _isnumber(y[i]):
                        out[i] = ite(b, x[i], y[i])
                    else:
                        out[i] = x[i] if bool(b) else y[i]
                else:
                    out[i] = x[i] if bool(b) else y[i]
            return out.view(SymArray)
        return orig(cond, x, y)

    @over("nan_to_num")
    def nan_to_num(orig, a, copy=True, nan=0.0, **k):
        b = obj(a)
        if b is None:
            return orig(a, copy, nan, **k) if not isinstance(a, np.ndarray) or a.dtype != object else \
                orig(a.astype(float), copy, nan, **k)
        return like(_map(lambda v: nan if is_nan(v) else v, b), b)

    @over("clip")
    def clip(orig, a, *args, **k):
        b = obj(a)
        if b is None:
            return orig(a, *args, **k)
        args = list(args)
        lo = k.get("a_min", args[0] if args else None)
        hi = k.get("a_max", args[1] if len(args) > 1 else None)
        return like(_map(lambda v: _clip(v, lo, hi), b), a)

    def mm(name, pick, skip):
        @over(name)
        def f(orig, a, b, *args, **k):
            if obj(a) is None and obj(b) is None:
                return orig(_plain(a), _plain(b), *args, **k)
            x, y = np.broadcast_arrays(obj(a) if isinstance(a, Sym) else orig_asarray(a, dtype=object),
                                       obj(b) if isinstance(b, Sym) else orig_asarray(b, dtype=object))
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                u, v = x[i], y[i]
                if is_nan(u) or is_nan(v):
                    out[i] = (v if is_nan(u) else u) if skip else math.nan
                else:
                    out[i] = ite(u < v, u, v) if pick == "min" else ite(u > v, u, v)
            return like(out, a if isinstance(a, (pd.Series, pd.DataFrame)) else (
                b if isinstance(b, (pd.Series, pd.DataFrame)) else out))
    mm("minimum", "min", False)
    mm("maximum", "max", False)
    mm("fmin", "min", True)
    mm("fmax", "max", True)

    @over("sort")
    def sort(orig, a, *args, **k):
        b = obj(a)
        if b is None or b.ndim != 1:
            return orig(a, *args, **k)
        out = np.empty(b.shape, dtype=object)
        for i, x in enumerate(s_sort([v for v in b if not is_nan(v)]) + [v for v in b if is_nan(v)]):
            out[i] = x
        return out.view(SymArray)

    @over("argsort")
    def argsort(orig, a, *args, **k):
        b = obj(a)
        if b is None:
            return orig(a, *args, **k)
        idx = list(range(len(b)))
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and bool(b[i] < b[out[j - 1]]):
                j -= 1
            out.insert(j, i)
        return orig_array(out)

    @over("allclose")
    def allclose(orig, a, b, rtol=1e-05, atol=1e-08, **k):
        if obj(a) is None and obj(b) is None:
            return orig(a, b, rtol, atol, **k)
        return builtins.all(bool(x) for x in orig_array(_isclose(a, b, rtol, atol)).ravel())

    @over("isclose")
    def isclose(orig, a, b, rtol=1e-05, atol=1e-08, **k):
        if obj(a) is None and obj(b) is None:
            return orig(a, b, rtol, atol, **k)
        return to_bool(orig_array(_isclose(a, b, rtol, atol)))

    def _isclose(a, b, rtol, atol):
        def near(u, v):
            if lift(u) is None or lift(v) is None:
                return u == v
            d = lift(u) - lift(v)
            if not d.p:
                return True
            return abs(d) <= Fraction(atol) + Fraction(rtol) * abs(lift(v))
        x, y = np.broadcast_arrays(obj(a) if isinstance(a, Sym) else orig_asarray(a, dtype=object),
                                   obj(b) if isinstance(b, Sym) else orig_asarray(b, dtype=object))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = False if is_nan(x[i]) or is_nan(y[i]) else near(x[i], y[i])
        return out

    @over("linspace")
    def linspace(orig, start, stop, num=50, endpoint=True, *a, **k):
        if not (isinstance(start, Sym) or isinstance(stop, Sym)):
            return orig(start, stop, num, endpoint, *a, **k)
        out = np.empty(num, dtype=object)
        div = num - 1 if endpoint else num
        for i in range(num):
            out[i] = nan if is_nan(start) or is_nan(stop) else (
                stop if endpoint and i == num - 1 and i else start + (stop - start) * Fraction(i, builtins.max(div, 1)))
        return out.view(SymArray)

    @over("around", "round", "round_")
    def around(orig, a, decimals=0, out=None):
        b = obj(a)
        if b is None:
            return orig(a, decimals, out)
        if isinstance(a, Sym):
            return a.__round__(decimals)
        return like(_map(lambda v: round_to(v, decimals), b), a)

    @over("diff")
    def diff(orig, a, n=1, axis=-1, **k):
        return orig(_plain(a) if isinstance(a, np.ndarray) else a, n, axis, **k)

    @over("append")
    def append(orig, a, b, axis=None):
        r = orig(_plain(a) if isinstance(a, np.ndarray) else a, obj(b) if isinstance(b, Sym) else
                 (_plain(b) if isinstance(b, np.ndarray) else b), axis)
        return r.view(SymArray) if r.dtype == object else r

    @over("isscalar")
    def isscalar(orig, a):
        return True if isinstance(a, Sym) else orig(a)

    @over("dot")
    def dot(orig, a, b, **k):
        return orig(_plain(a), _plain(b), **k)

    # --- pandas
    S, D = pd.Series, pd.DataFrame

    def ctor(cls):
        orig = cls.__init__

        def __init__(self, data=None, index=None, *args, **kw):
            if isinstance(data, Sym):
                n = 1 if index is None else len(index)
                if cls is S:
                    r = np.empty(n, dtype=object)
                    r[:] = [data] * n
                    data = r
                    if _is_float_dtype(kw.get("dtype")):
                        kw["dtype"] = object
            dt = kw.get("dtype", None)
            pos = False
            if dt is None and args:
                i = 0 if cls is S else 1
                if len(args) > i:
                    dt, pos = args[i], True
            if dt is not None and _is_float_dtype(dt) and _data_has(data):
                if pos:
                    args = list(args)
                    args[0 if cls is S else 1] = object
                else:
                    kw["dtype"] = object
            orig(self, data, index, *args, **kw)
        cls.__init__ = __init__
    ctor(S)
    ctor(D)

    from pandas.core.generic import NDFrame
    orig_astype = NDFrame.astype

    def astype(self, dtype, *args, **kw):
        if isinstance(self, pd.Series):
            b = obj(self)
            if b is not None:
                if _is_float_dtype(dtype):
                    return self.copy()
                if _is_int_dtype(dtype):
                    return pd.Series(_map(lambda v: v.trunc() if isinstance(v, Sym) else int(v), b),
                                     index=self.index, name=self.name, dtype=object)
                if dtype in (str, "str"):
                    return pd.Series(_map(lambda v: "<sym>" if isinstance(v, Sym) else str(v), b),
                                     index=self.index, name=self.name, dtype=object)
            return orig_astype(self, dtype, *args, **kw)
        if obj(self) is None:
            return orig_astype(self, dtype, *args, **kw)
        d = dtype if isinstance(dtype, (dict, pd.Series)) else {c: dtype for c in self.columns}
        out = self.copy()
        cols = [out.iloc[:, i].astype(d[c]) if c in d else out.iloc[:, i] for i, c in enumerate(out.columns)]
        r = pd.concat(cols, axis=1) if cols else out
        r.columns = self.columns
        return r
    NDFrame.astype = astype

    # object columns that mix Syms and plain floats divide as float columns do
    from pandas.core.computation import expressions
    orig_eval = expressions.evaluate

    def evaluate(op, a, b, *args, **kw):
        try:
            return orig_eval(op, a, b, *args, **kw)
        except ZeroDivisionError:
            return safe_op(op, a, b)
    expressions.evaluate = evaluate

    # .values keeps comparisons symbolic
    for cls in (S, D):
        def mkv(cls=cls, orig=cls.values):
            def values(self):
                r = orig.fget(self)
                if isinstance(r, np.ndarray) and r.dtype == object and type(r) is np.ndarray and _has(r):
                    return r.view(SymArray)
                return r
            return property(values)
        cls.values = mkv()
        def mkn(cls=cls, orig=cls.to_numpy):
            def to_numpy(self, dtype=None, *args, **kw):
                if dtype is not None and _is_float_dtype(dtype) and obj(self) is not None:
                    dtype = object
                r = orig(self, dtype, *args, **kw)
                if r.dtype == object and type(r) is np.ndarray and _has(r):
                    return r.view(SymArray)
                return r
            return to_numpy
        cls.to_numpy = mkn()

    # nan-aware reductions
    def nano(name, f1, kwd=()):
        orig = getattr(nanops, name)

        def f(values, *args, **kw):
            if isinstance(values, np.ndarray) and values.dtype == object and _has(values):
                axis = kw.get("axis", None)
                skipna = kw.get("skipna", True)
                kk = {x: kw[x] for x in kwd if x in kw}

                def one(v):
                    if skipna:
                        v = dropna(v)
                    elif builtins.any(is_nan(x) for x in v):
                        return nan
                    mc = kw.get("min_count", 0)
                    if mc and len(v) < mc:
                        return nan
                    if not v and name in ("nanmin", "nanmax", "nanmean", "nanmedian"):
                        return nan
                    return f1(v, **kk)
                r = red_axis(values, axis, one)
                return _plain(r) if isinstance(r, np.ndarray) else r
            return orig(values, *args, **kw)
        setattr(nanops, name, f)
    nano("nansum", r_sum)
    nano("nanprod", r_prod)
    nano("nanmean", r_mean)
    nano("nanmedian", r_median)
    nano("nanmin", r_min)
    nano("nanmax", r_max)
    nano("nanvar", lambda v, ddof=1: r_var(v, ddof), ("ddof",))
    nano("nanstd", lambda v, ddof=1: r_std(v, ddof), ("ddof",))
    nano("nansem", lambda v, ddof=1: s_sqrt(r_var(v, ddof) / len(v)) if v else nan, ("ddof",))

    for cls in (S, D):
        def mkround(orig=cls.round):
            def rnd(self, decimals=0, *args, **kw):
                b = obj(self)
                if b is None:
                    return orig(self, decimals, *args, **kw)
                if not isinstance(decimals, int):
                    raise EngineLimit("round with several decimals")
                return like(_map(lambda v: v if isinstance(v, str) else round_to(v, decimals), b), self)
            return rnd
        cls.round = mkround()

    # cumulative
    def cum(name, op):
        for cls in (S, D):
            orig = getattr(cls, name)

            def f(self, axis=None, skipna=True, *args, _orig=orig, **kw):
                if obj(self) is None:
                    return _orig(self, axis if axis is not None else 0, skipna, *args, **kw)
                b = np.array(self, dtype=object)
                if b.ndim == 1:
                    return like(cum1(b, op), self)
                if axis in (None, 0, "index"):
                    cols = [cum1(b[:, j], op) for j in range(b.shape[1])]
                    r = np.empty(b.shape, dtype=object)
                    for j, cc in enumerate(cols):
                        r[:, j] = cc
                else:
                    r = np.empty(b.shape, dtype=object)
                    for i in range(b.shape[0]):
                        r[i, :] = cum1(b[i, :], op)
                return like(r, self)
            setattr(cls, name, f)
    cum("cumsum", lambda a, b: a + b)
    cum("cumprod", lambda a, b: a * b)
    cum("cummax", lambda a, b: ite(b > a, b, a))
    cum("cummin", lambda a, b: ite(b < a, b, a))

    # rank
    for cls in (S, D):
        def mkr(cls=cls, orig=cls.rank):
            def rank(self, axis=0, method="average", *args, **kw):
                if obj(self) is None:
                    return orig(self, axis, method, *args, **kw)
                asc = kw.get("ascending", True)
                if isinstance(self, pd.DataFrame):
                    return self.apply(lambda c: c.rank(method=method, ascending=asc), axis=axis)
                v = list(np.asarray(self, dtype=object))
                return pd.Series(s_rank(v, method, asc), index=self.index, name=self.name)
            return rank
        cls.rank = mkr()
    try:
        import scipy.stats as ss
        orig_rd = ss.rankdata

        def rankdata(a, method="average", **k):
            b = obj(a)
            if b is None:
                return orig_rd(a, method, **k)
            return orig_array(s_rank(list(b.ravel()), method, True), dtype=float)
        ss.rankdata = rankdata
        orig_gm = ss.gmean

        def gmean(a, axis=0, dtype=None, weights=None, **k):
            b = obj(a)
            if b is None:
                if isinstance(a, np.ndarray) and a.dtype == object:
                    a = a.astype(float)
                return orig_gm(a, axis=axis, dtype=dtype, weights=weights, **k)
            if weights is not None:
                raise EngineLimit("weighted gmean")
            v = list(b.ravel())
            return (r_sum([_f1(Sym.log, math.log)(x) for x in v]) / len(v)).exp()
        ss.gmean = gmean

        def moment(v, k):
            m = r_mean(v)
            return r_sum([functools.reduce(operator.mul, [x - m] * k) for x in v]) / len(v)

        def shape_stat(name, f):
            orig = getattr(ss, name)

            def g(a, axis=0, *args, **k):
                b = obj(a)
                if b is None:
                    if isinstance(a, np.ndarray) and a.dtype == object:
                        a = a.astype(float)
                    return orig(a, axis, *args, **k)
                if b.ndim != 1 or args or set(k) - {"nan_policy"}:
                    raise EngineLimit("scipy.stats." + name)
                return f([x for x in b if not is_nan(x)] if k.get("nan_policy") == "omit" else list(b))
            setattr(ss, name, g)

        def mode(v):
            best = None
            for x in v:
                n = len([y for y in v if bool(y == x)])
                if best is None or n > best[0] or (n == best[0] and bool(x < best[1])):
                    best = (n, x)
            return type("ModeResult", (), {"mode": best[1], "count": best[0]})()
        shape_stat("skew", lambda v: moment(v, 3) / s_sqrt(lift(moment(v, 2))) ** 3)
        shape_stat("kurtosis", lambda v: moment(v, 4) / lift(moment(v, 2)) ** 2 - 3)
        shape_stat("variation", lambda v: s_sqrt(lift(moment(v, 2))) / r_mean(v))
        shape_stat("mode", mode)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("trikit"):
                if getattr(m, "gmean", None) is orig_gm:
                    m.gmean = gmean
    except ImportError:
        pass
    install_dists()

    # object columns are float columns here: shift fills with nan
    for cls in (S, D):
        def mks(cls=cls, orig=cls.shift):
            def shift(self, *args, **kw):
                if not engine_data(self) or "fill_value" in kw:
                    return orig(self, *args, **kw)
                r = orig(self, *args, **kw)
                return r.where(r.notna(), nan) if cls is S else r.apply(
                    lambda c: c.where(c.notna(), nan) if c.dtype == object else c)
            return shift
        cls.shift = mks()

    # groupby
    def gred(name, f1, kws=()):
        for cls in (gb_generic.SeriesGroupBy, gb_generic.DataFrameGroupBy):
            orig = getattr(cls, name)

            def f(self, *args, _orig=orig, _cls=cls, **kw):
                o = self._obj_with_exclusions if _cls is gb_generic.DataFrameGroupBy else self.obj
                if not engine_data(o):
                    return _orig(self, *args, **kw)
                kk = {x: kw[x] for x in kws if x in kw}
                if name in ("std", "var") and args:
                    kk["ddof"] = args[0]
                if name == "quantile" and args:
                    kk["q"] = args[0]
                mc = kw.get("min_count", -1)

                def one(s):
                    v = dropna(list(s))
                    if name == "count":
                        return len(v)
                    if name == "sum" and mc > 0 and len(v) < mc:
                        return nan
                    if not v:
                        return 0.0 if name == "sum" else nan
                    return f1(v, **kk)
                if self.axis == 1:
                    raise EngineLimit("groupby axis=1")
                return _agg_py(self, one, _cls)
            setattr(cls, name, f)
    gred("sum", r_sum)
    gred("prod", r_prod)
    gred("mean", r_mean)
    gred("median", r_median)
    gred("min", r_min)
    gred("max", r_max)
    gred("count", len)
    gred("first", lambda v: v[0])
    gred("last", lambda v: v[-1])
    gred("std", lambda v, ddof=1: r_std(v, ddof), ("ddof",))
    gred("var", lambda v, ddof=1: r_var(v, ddof), ("ddof",))
    gred("quantile", lambda v, q=.5, interpolation="linear": r_quantile(v, q, interpolation), ("q", "interpolation"))

    def gcum(name, op):
        for cls in (gb_generic.SeriesGroupBy, gb_generic.DataFrameGroupBy):
            orig = getattr(cls, name)

            def f(self, *args, _orig=orig, _cls=cls, **kw):
                o = self._obj_with_exclusions if _cls is gb_generic.DataFrameGroupBy else self.obj
                if not engine_data(o):
                    return _orig(self, *args, **kw)
                return _transform_py(self, o, lambda b: cum1(b, op))
            setattr(cls, name, f)
    gcum("cumsum", lambda a, b: a + b)
    gcum("cumprod", lambda a, b: a * b)
    gcum("cummax", lambda a, b: ite(b > a, b, a))
    gcum("cummin", lambda a, b: ite(b < a, b, a))

    for cls in (gb_generic.SeriesGroupBy, gb_generic.DataFrameGroupBy):
        def mkt(cls=cls, orig=cls.transform):
            def transform(self, func, *args, **kw):
                o = self._obj_with_exclusions if cls is gb_generic.DataFrameGroupBy else self.obj
                if not engine_data(o):
                    return orig(self, func, *args, **kw)
                if isinstance(func, str):
                    if func in ("cumsum", "cumprod", "cummax", "cummin"):
                        return getattr(self, func)(*args, **kw)
                    reds = {"sum": r_sum, "mean": r_mean, "min": r_min, "max": r_max, "median": r_median,
                            "first": lambda v: v[0], "last": lambda v: v[-1], "count": len, "size": len,
                            "std": lambda v: r_std(v, 1), "var": lambda v: r_var(v, 1), "prod": r_prod}
                    if func in reds:
                        def bc(b):
                            v = dropna(list(b))
                            x = reds[func](v) if v or func in ("sum", "count") else nan
                            r = np.empty(len(b), dtype=object)
                            for i in range(len(b)):
                                r[i] = x
                            return r
                        return _transform_py(self, o, bc)
                    return getattr(self, func)(*args, **kw)
                if cls is gb_generic.SeriesGroupBy:
                    return _transform_py(self, o, lambda b: func(pd.Series(b), *args, **kw))
                return orig(self, func, *args, **kw)
            return transform
        cls.transform = mkt()
        def mka(cls=cls, orig=cls.aggregate):
            def aggregate(self, func=None, *args, **kw):
                o = self._obj_with_exclusions if cls is gb_generic.DataFrameGroupBy else self.obj
                if isinstance(func, str) and engine_data(o):
                    return getattr(self, func)(*args, **kw)
                return orig(self, func, *args, **kw)
            return aggregate
        cls.aggregate = cls.agg = mka()


def _isnumber(x):
    return isinstance(x, (Sym, int, float, Fraction, np.number)) and not is_nan(x)


def _clip(v, lo, hi):
    if is_nan(v):
        return v
    if lo is not None:
        v = ite(v < lo, lo, v) if isinstance(v, Sym) or isinstance(lo, Sym) else builtins.max(v, lo)
    if hi is not None:
        v = ite(v > hi, hi, v) if isinstance(v, Sym) or isinstance(hi, Sym) else builtins.min(v, hi)
    return v


def _data_has(data):
    if data is None or isinstance(data, str):
        return False
    if isinstance(data, Sym):
        return True
    if isinstance(data, dict):
        return any(_data_has(v) for v in data.values())
    if isinstance(data, (np.ndarray, pd.Series, pd.DataFrame)):
        return obj(data) is not None
    if isinstance(data, (list, tuple)):
        return any(_data_has(v) if isinstance(v, (list, tuple, dict, np.ndarray, pd.Series)) else isinstance(v, Sym)
                   for v in data)
    return False


def cum1(b, op):
    out = np.empty(len(b), dtype=object)
    t = None
    for i, x in enumerate(list(b)):
        if is_nan(x):
            out[i] = nan
            continue
        t = x if t is None else op(t, x)
        out[i] = t
    return out


def s_rank(v, method="average", asc=True):
    idx = [i for i, x in enumerate(v) if not is_nan(x)]
    out = [nan] * len(v)
    order = []                          # list of tie groups, ascending
    for i in idx:
        placed = False
        j = len(order)
        while j > 0:
            w = v[order[j - 1][0]]
            if bool(v[i] == w):
                order[j - 1].append(i)
                placed = True
                break
            if bool(v[i] < w):
                j -= 1
                continue
            break
        if not placed:
            order.insert(j, [i])
    if not asc:
        order = order[::-1]
    r = 1
    for d, g in enumerate(order, start=1):
        for n, i in enumerate(sorted(g)):
            out[i] = {"average": r + (len(g) - 1) / 2, "min": r, "max": r + len(g) - 1,
                      "first": r + n, "dense": d}[method]
        r += len(g)
    return [float(x) for x in out]


def _agg_py(gb, one, cls):
    """group reduction in Python, shaped as pandas shapes it."""
    ids, _, ngroups = gb.grouper.group_info
    res = gb.grouper.result_index
    o = gb._obj_with_exclusions if cls is gb_generic.DataFrameGroupBy else gb.obj
    groups = [np.flatnonzero(ids == g) for g in range(ngroups)]

    def col(s):
        b = np.asarray(s, dtype=object)
        r = np.empty(ngroups, dtype=object)
        for g, rows in enumerate(groups):
            r[g] = one(b[rows])
        out = pd.Series(r, index=res, name=s.name)
        if obj(out) is None:
            out = out.infer_objects()
        return out
    if cls is gb_generic.SeriesGroupBy:
        out = col(o)
        if gb.as_index:
            return out
        return out.to_frame().reset_index()
    cols = [col(o.iloc[:, j]) for j in range(o.shape[1])]
    out = pd.concat(cols, axis=1) if cols else pd.DataFrame(index=res)
    out.columns = o.columns
    if gb.as_index:
        return out
    return out.reset_index()


def _transform_py(gb, o, f):
    ids, _, ngroups = gb.grouper.group_info

    def col(s):
        b = np.asarray(s, dtype=object)
        r = np.empty(len(b), dtype=object)
        r[:] = nan
        for g in range(ngroups):
            rows = np.flatnonzero(ids == g)
            x = f(b[rows])
            r[rows] = np.asarray(x, dtype=object)
        out = pd.Series(r, index=s.index, name=s.name)
        return out.infer_objects() if obj(out) is None else out
    if isinstance(o, pd.Series):
        return col(o)
    out = pd.concat([col(o.iloc[:, j]) for j in range(o.shape[1])], axis=1)
    out.columns = o.columns
    return out


# --------------------------------------------------------------- distributions
class SymFrozen:
    """frozen normal / lognormal with symbolic parameters."""

    def __init__(self, dist, args, kwds):
        self.dist, self.args, self.kwds = dist, args, kwds
        n = dist.name
        a = list(args)
        if n == "lognorm":
            self.s = kwds.get("s", a.pop(0) if a else None)
        self.loc = kwds.get("loc", a.pop(0) if a else 0.0)
        self.scale = kwds.get("scale", a.pop(0) if a else 1.0)

    def _each(self, f, x):
        if isinstance(x, (pd.Series, np.ndarray, list, tuple)):
            b = np.asarray(x, dtype=object)
            return _map(f, b).view(SymArray)
        return f(x)

    def ppf(self, q):
        import scipy.special as sp
        if np.ndim(q) and not isinstance(q, Sym):
            return self._each(self.ppf, q)
        z = float(sp.ndtri(float(q)))
        if is_nan(self.scale) or is_nan(self.loc):
            return nan
        core.generic_nonzero(self.scale)
        if self.dist.name == "lognorm":
            core.generic_nonzero(self.s)
        # scipy: a scale that is not positive gives nan
        if not bool(self.scale > 0):
            return nan
        if self.dist.name == "norm":
            if math.isinf(z):
                return z
            return self.loc + self.scale * z
        if is_nan(self.s) or not bool(self.s > 0):
            return nan
        if math.isinf(z):
            return math.inf if z > 0 else self.loc
        e = self.s * z
        return self.loc + self.scale * (e.exp() if isinstance(e, Sym) else math.exp(e))

    def mean(self):
        if self.dist.name == "norm":
            return self.loc
        e = self.s * self.s / 2
        return self.loc + self.scale * (e.exp() if isinstance(e, Sym) else math.exp(e))

    def var(self):
        if self.dist.name == "norm":
            return self.scale * self.scale
        e = self.s * self.s
        ee = e.exp() if isinstance(e, Sym) else math.exp(e)
        return self.scale * self.scale * ee * (ee - 1)

    def std(self):
        return s_sqrt(self.var())

    def median(self):
        return self.ppf(.5)

    def interval(self, confidence):
        return self.ppf((1 - confidence) / 2), self.ppf((1 + confidence) / 2)

    def pdf(self, x):
        if np.ndim(x) and not isinstance(x, Sym):
            return self._each(self.pdf, x)
        if is_nan(self.scale) or is_nan(self.loc) or is_nan(x):
            return nan
        core.generic_nonzero(self.scale)
        if not bool(self.scale > 0):
            return nan
        y = lift((x - self.loc) / self.scale)
        root = math.sqrt(2 * math.pi)
        if self.dist.name == "norm":
            return (-(y * y) / 2).exp() / (self.scale * root)
        if is_nan(self.s) or not bool(self.s > 0):
            return nan
        if not bool(y > 0):
            return 0.0
        u = lift(y.log() / self.s)
        return (-(u * u) / 2).exp() / (self.s * y * self.scale * root)

    def cdf(self, x):
        raise EngineLimit("cdf of a symbolic distribution")

    sf = rvs = logpdf = cdf


def install_dists():
    from scipy.stats import _distn_infrastructure as di
    orig_call, orig_freeze = di.rv_generic.__call__, di.rv_generic.freeze

    def has(args, kwds):
        return any(isinstance(x, Sym) for x in list(args) + list(kwds.values()))

    def freeze(self, *args, **kwds):
        if has(args, kwds):
            if self.name not in ("norm", "lognorm"):
                raise EngineLimit("distribution " + self.name)
            return SymFrozen(self, args, kwds)
        return orig_freeze(self, *args, **kwds)

    def call(self, *args, **kwds):
        return freeze(self, *args, **kwds) if has(args, kwds) else orig_call(self, *args, **kwds)
    di.rv_generic.__call__ = call
    di.rv_generic.freeze = freeze
    orig_ppf = di.rv_continuous.ppf

    def ppf(self, q, *args, **kwds):
        if has(args, kwds):
            f = freeze(self, *args, **kwds)
            if np.ndim(q) == 0:
                return f.ppf(q)
            return np.array([f.ppf(x) for x in q], dtype=object)
        vec = [a for a in list(args) + list(kwds.values()) if isinstance(a, (np.ndarray, pd.Series)) and obj(a) is not None]
        if vec:
            n = len(vec[0])

            def at(a, i):
                return np.asarray(a, dtype=object)[i] if isinstance(a, (np.ndarray, pd.Series, list)) else a
            r = np.empty(n, dtype=object)
            for i in range(n):
                kk = {k: at(v, i) for k, v in kwds.items()}
                aa = [at(v, i) for v in args]
                r[i] = freeze(self, *aa, **kk).ppf(at(q, i)) if has(aa, kk) else orig_ppf(self, at(q, i), *aa, **kk)
            return r.view(SymArray)
        return orig_ppf(self, q, *args, **kwds)
    di.rv_continuous.ppf = ppf
