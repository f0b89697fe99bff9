"""The two faces of a harness: symbolic run and concrete replay.

A harness is a function ``h(H)``.  It declares its inputs through H, calls the
real code and states obligations through H.  In a symbolic run the inputs are
Syms; in a replay the same function runs, on unpatched numpy/pandas, with the
numbers a solver model gave for those inputs.
"""
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import pandas as pd

from . import core
from .core import Sym, SymBool, EngineLimit, Infeasible, lift, p_add, p_key

RTOL = 1e-6


def isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    if x is None:
        return True
    try:
        return bool(x != x)
    except Exception:
        return False


def flat(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return list(np.asarray(x, dtype=object).ravel())
    if isinstance(x, np.ndarray):
        return list(np.asarray(x.view(np.ndarray), dtype=object).ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    return [x]


class Skip(Exception):
    """this input is outside the harness (concrete replays only)."""


class Base:
    symbolic = False

    def __init__(self):
        self.obs = []
        self.notes = []

    def const(self, x):
        """a number that is carried exactly in a symbolic run."""
        return lift(Fraction(x)) if self.symbolic else float(x)

    def draw(self, name, sign=None):
        """a random draw: an input, the same one whenever the name returns."""
        if not hasattr(self, "_drawn"):
            self._drawn = {}
        if name not in self._drawn:
            self._drawn[name] = self.real(name, sign=sign)
        return self._drawn[name]

    def array(self, a):
        from .shims import SymArray
        a = np.asarray(a)
        return a.view(SymArray) if self.symbolic and a.dtype == object else a.astype(float)

    # positive values drawn so that floats stay well behaved
    def pos(self, name):
        return self.real(name, sign=">0")

    def eqs(self, label, actual, expected, rtol=RTOL):
        a, e = flat(actual), flat(expected)
        self.same(label + ":size", len(a), len(e))
        for i, (x, y) in enumerate(zip(a, e)):
            self.eq("%s[%d]" % (label, i), x, y, rtol)

    def frame(self, label, actual, index, columns, cells, rtol=RTOL):
        """actual has exactly these labels, in order, and these cells."""
        self.same(label + ":index", _labels(actual.index), list(index))
        self.same(label + ":columns", _labels(actual.columns), list(columns))
        if _labels(actual.index) != list(index) or _labels(actual.columns) != list(columns):
            return
        for i, r in enumerate(index):
            for j, c in enumerate(columns):
                self.eq("%s[%s,%s]" % (label, r, c), actual.iloc[i, j], cells[i][j], rtol)

    def series(self, label, actual, index, cells, rtol=RTOL):
        self.same(label + ":index", _labels(actual.index), list(index))
        if _labels(actual.index) != list(index):
            return
        for r, x, y in zip(index, list(actual), cells):
            self.eq("%s[%s]" % (label, r), x, y, rtol)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.same(label, True, True)
        except Exception as e:
            self.same(label, type(e).__name__, [getattr(x, "__name__", str(x)) for x in (exc if isinstance(exc, tuple) else (exc,))])
        else:
            self.same(label, "no exception", "exception")


def _labels(ix):
    return [x.item() if hasattr(x, "item") and not isinstance(x, Sym) else x for x in list(ix)]


class SymH(Base):
    symbolic = True

    def __init__(self, ctx, params):
        super().__init__()
        self.ctx = ctx
        self.params = params
        self.order = []

    def real(self, name, sign=None, lo=None, hi=None, integer=False):
        self.order.append(name)
        lo = Fraction(lo) if lo is not None else None
        hi = Fraction(hi) if hi is not None else None
        return self.ctx.var(name, sign=sign, lo=lo, hi=hi, integer=integer)

    def int(self, name, lo=None, hi=None):
        return self.real(name, lo=lo, hi=hi, integer=True)

    def pick(self, name, options):
        """a free finite choice: an integer variable, decided by case split."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.int("pick_" + name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if v == i:
                return options[i]
        return options[-1]

    def draws(self, name, n, sign=None, lo=None, hi=None):
        return [self.real("%s_%d" % (name, i), sign=sign, lo=lo, hi=hi) for i in range(n)]

    def assume(self, c):
        if isinstance(c, SymBool):
            self.ctx.assume(c.c)
        elif not c:
            raise Infeasible()

    def eq(self, label, actual, expected, rtol=RTOL):
        for x in (actual, expected):
            if isinstance(x, Sym):
                x.p                               # settle it while the path may still split
        self.obs.append(("eq", label, actual, expected, rtol))

    def true(self, label, cond):
        self.obs.append(("true", label, cond))

    def le(self, label, a, b):
        self.true(label, a <= b)

    def same(self, label, a, b):
        self.obs.append(("same", label, _plain(a), _plain(b)))

    def note(self, **k):
        self.notes.append(k)


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, (np.generic,)):
        return x.item()
    return x


class ConcH(Base):
    """replay on numbers."""

    def __init__(self, witness, params, as_int=False):
        super().__init__()
        self.w = witness
        self.params = params
        self.as_int = as_int
        self.fails = []
        self.values = []
        self.count = 0
        self.scale = max([1.0] + [abs(v) for v in witness.values() if v == v and abs(v) < 1e18])

    def real(self, name, sign=None, lo=None, hi=None, integer=False):
        v = self.w.get(name)
        if v is None:
            v = lo if lo is not None else (1.0 if sign in (">0", ">=0", "!=0") else 0.0)
        if integer or (self.as_int and float(v).is_integer()):
            return int(round(v))
        return float(v)

    def int(self, name, lo=None, hi=None):
        return self.real(name, lo=lo, hi=hi, integer=True)

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = int(round(self.w.get("pick_" + name, 0)))
        return options[max(0, min(len(options) - 1, v))]

    def draws(self, name, n, sign=None, lo=None, hi=None):
        return [self.real("%s_%d" % (name, i), sign=sign, lo=lo, hi=hi) for i in range(n)]

    def assume(self, c):
        if not c:
            raise Skip("assumption fails")

    def eq(self, label, actual, expected, rtol=RTOL):
        self.count += 1
        self.obs.append(label)
        a, e = actual, expected
        try:
            fa = float(a) if not isnan(a) else math.nan
            fe = float(e) if not isnan(e) else math.nan
        except (TypeError, ValueError):
            self.values.append(None)
            if not (a is e or a == e):
                self.fails.append([label, repr(a), repr(e)])
            return
        self.values.append(fa)
        if isnan(fa) and isnan(fe):
            return
        if fa == fe:
            return
        if not (abs(fa - fe) <= rtol * (abs(fe) + abs(fa)) + 1e-11 * self.scale + rtol * 1e-3):
            self.fails.append([label, fa, fe])

    def le(self, label, a, b):
        self.true(label, float(a) <= float(b) + RTOL * (abs(float(a)) + abs(float(b))) + 1e-11 * self.scale)

    def true(self, label, cond):
        self.count += 1
        self.obs.append(label)
        self.values.append(bool(cond))
        if not cond:
            self.fails.append([label, "False", "True"])

    def same(self, label, a, b):
        self.count += 1
        self.obs.append(label)
        a, b = _plain(a), _plain(b)
        self.values.append(repr(a))
        if a != b:
            self.fails.append([label, repr(a), repr(b)])

    def note(self, **k):
        self.notes.append(k)


# ------------------------------------------------------------- symbolic paths
def run_path(fn, params, prefix, opts):
    """one symbolic path -> dict."""
    ctx = core.Ctx(prefix=prefix, seed=opts.get("seed", 1), timeout_ms=opts.get("timeout_ms", 1500),
                   generic=opts.get("generic", False))
    ctx.numeric_roots = opts.get("numeric_roots", False)
    core.set_ctx(ctx)
    H = SymH(ctx, params)
    out = {"prefix": list(prefix), "status": "ok", "open": [], "fails": [], "inconclusive": [],
           "obligations": 0, "trivial": 0, "discharged": 0, "witness": None, "witnesses": [], "exc": None}
    crash = None
    try:
        fn(H)
    except Infeasible:
        out["status"] = "infeasible"
    except EngineLimit as e:
        out["status"] = "limit"
        out["exc"] = "EngineLimit: %s @ %s" % (e, _where(e))
    except core.OutOfBudget:
        out["status"] = "limit"
    except Exception as e:
        crash = e
        out["status"] = "exception"
        out["exc"] = "%s: %s @ %s" % (type(e).__name__, e, _where(e))
    out["open"] = ctx.open
    out["decisions"] = len(ctx.decisions)
    if out["status"] != "infeasible":
        w = witness(ctx, opts)
        if w is None and ctx.feasible() == "unsat":
            out["status"] = "infeasible"
        out["witness"] = w
        out["witnesses"] = [w] if w is not None else []
        if out["status"] == "limit":
            out["witnesses"] += more_witnesses(ctx, 5)
        if w is not None and out["status"] == "ok":
            try:
                out["sym_values"] = ([o[1] for o in H.obs], sym_values(ctx, H, w))
            except (OverflowError, ZeroDivisionError, ValueError):
                pass
    if out["status"] in ("ok", "limit", "exception"):
        judge(ctx, H, out, opts)
    out["path"] = [d for d in ctx.decisions if d in (0, 1)]
    out["stats"] = ctx.stats
    out["notes"] = ctx.notes
    out["forks"] = sum(1 for d in ctx.decisions if d in (0, 1))
    core.set_ctx(None)
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/trikit/" in f.filename or "/harness/" in f.filename]
    fr = fr[-2:] or tb[-2:]
    return " <- ".join("%s:%d %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in reversed(fr))


def names(ctx):
    return {a.id: n for n, a in ctx.vars.items()}


def model_to_witness(ctx, mod):
    w = {}
    for n, a in ctx.vars.items():
        v = ctx.eval_atom(a.id, mod, {})
        w[n] = float(v)
    return w


def witness(ctx, opts):
    """inputs that follow this path, as solver models (pretty ones first)."""
    import random
    rnd = random.Random(12345)
    cands = []
    ints = {}
    if any(a.arg for a in ctx.vars.values()):
        # case choices come from the solver, amounts are drawn
        if not ctx.models:
            r, mod = ctx.check([], timeout_ms=3000)
            if mod is not None:
                ctx.models.append(mod)
        if ctx.models:
            ints = {a.id: float(ctx.models[-1].get(a.id, 0)) for a in ctx.vars.values() if a.arg}
    for t in range(8):
        m = dict(ints)
        for n, a in ctx.vars.items():
            lo = float(a.lo) if a.lo is not None else None
            hi = float(a.hi) if a.hi is not None else None
            if a.id in m:
                continue
            if a.arg:                        # integer
                m[a.id] = float(rnd.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 9)))
            elif lo is not None and hi is not None:
                m[a.id] = round(lo + (hi - lo) * rnd.random(), 3)
            elif a.sign in (">0", ">=0") or lo is not None:
                m[a.id] = (lo or 0) + float(rnd.randint(1, 400)) / (1 if t % 2 else 4)
            else:
                m[a.id] = float(rnd.randint(-300, 700))
        cands.append(m)
    for m in cands:
        try:
            if all(ctx._robust(c, m) for c in ctx.pc):
                ctx.models.insert(0, m)
                return model_to_witness(ctx, m)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
    for m in ctx.models:
        try:
            if all(ctx._robust(c, m) for c in ctx.pc):
                return model_to_witness(ctx, m)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
    k = len(ctx.models)
    ctx.sample_models(None, 60)
    if len(ctx.models) > k:
        return model_to_witness(ctx, ctx.models[-1])
    # keep the floats away from the boundaries of strict conditions
    if ctx.pc:
        marg = [strict(c) for c in ctx.pc]
        r, mod = ctx.check([m for m in marg if m is not None], timeout_ms=3000)
        if mod is None:
            r, mod = ctx.check([], timeout_ms=5000)
    else:
        r, mod = ctx.check([])
    if mod is None:
        return None
    ctx.models.append(mod)
    return model_to_witness(ctx, mod)


def more_witnesses(ctx, k):
    """further models of a path the encoding could not finish."""
    import random
    rnd = random.Random(99)
    out = []
    ints = {a.id: float(ctx.models[-1].get(a.id, 0)) for a in ctx.vars.values() if a.arg} if ctx.models else {}
    for t in range(60):
        m = dict(ints)
        for n, a in ctx.vars.items():
            lo = float(a.lo) if a.lo is not None else None
            hi = float(a.hi) if a.hi is not None else None
            if a.id in m:
                continue
            if a.arg:
                m[a.id] = float(rnd.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 9)))
            elif lo is not None and hi is not None:
                m[a.id] = round(lo + (hi - lo) * rnd.random(), 3)
            elif a.sign in (">0", ">=0") or lo is not None:
                m[a.id] = (lo or 0) + float(rnd.randint(1, 900)) / (1 if t % 2 else 8)
            else:
                m[a.id] = float(rnd.randint(-300, 700))
        try:
            if all(ctx._robust(c, m) for c in ctx.pc):
                out.append(model_to_witness(ctx, m))
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if len(out) >= k:
            break
    return out


def strict(c):
    """p < 0  ->  p <= -margin, when p is a plain polynomial."""
    if c[0] == "rel" and c[2] in ("<", ">"):
        m = Fraction(1, 100)
        p, _ = core.CTX.clear(c[1], c[2])
        return ("rel", p_add(p, core.p_const(m), 1 if c[2] == "<" else -1), "<=" if c[2] == "<" else ">=")
    return None


def judge(ctx, H, out, opts):
    """decide every obligation of the path."""
    pend = []
    for ob in H.obs:
        out["obligations"] += 1
        kind, label = ob[0], ob[1]
        if kind == "same":
            if ob[2] == ob[3]:
                out["trivial"] += 1
                out["discharged"] += 1
            else:
                out["fails"].append([label, repr(ob[2])[:200], repr(ob[3])[:200], out["witness"]])
            continue
        if kind == "true":
            c = ob[2]
            if isinstance(c, SymBool):
                s = ctx.simplify_cond(c.c)
                c = s if isinstance(s, bool) else c
            if not isinstance(c, SymBool):
                if bool(c):
                    out["trivial"] += 1
                    out["discharged"] += 1
                else:
                    out["fails"].append([label, "False", "True", out["witness"]])
                continue
            pend.append((label, core.negate(c.c), core.negate(c.c), None))
            continue
        a, e, rtol = ob[2], ob[3], ob[4]
        if isinstance(a, SymBool) or isinstance(e, SymBool):
            a, e = lift(a), lift(e)
        an, en = isnan(a), isnan(e)
        if an or en:
            if an and en:
                out["trivial"] += 1
                out["discharged"] += 1
            else:
                out["fails"].append([label, "nan" if an else repr(a)[:120], "nan" if en else repr(e)[:120], out["witness"]])
            continue
        sa, se = lift(a), lift(e)
        if sa is None or se is None:
            if sa is None and se is None and a == e:
                out["trivial"] += 1
                out["discharged"] += 1
            else:
                out["fails"].append([label, repr(a)[:120], repr(e)[:120], out["witness"]])
            continue
        d = p_add(sa.p, se.p, -1)
        if d:
            d = core.reduce_poly(d)
        if d and rounding(d, sa.p, se.p):
            out["rounded"] = out.get("rounded", 0) + 1
            d = {}
        if d and set(d) == {()} and all(not m for m in list(sa.p) + list(se.p)):
            # two numbers
            x, y = float(sa.p.get((), 0)), float(se.p.get((), 0))
            if abs(x - y) <= rtol * (abs(x) + abs(y)) + 1e-9:
                d = {}
            else:
                out["fails"].append([label, x, y, out["witness"]])
                continue
        if not d:
            out["trivial"] += 1
            pend.append((label, ("rel", d, "!="), None, None))
            continue
        pend.append((label, ("rel", d, "!="), (sa, se, rtol), d))
    t0 = time.time()
    # identities first: one query closes all syntactically equal pairs
    triv = [x for x in pend if x[1][0] == "rel" and not x[1][1]]
    if triv:
        r, _ = ctx.check([("or", [x[1] for x in triv])]) if opts.get("always_query", True) else ("unsat", None)
        if r == "unsat":
            out["discharged"] += len(triv)
        else:
            out["inconclusive"] += [x[0] for x in triv]
    for label, neg, marg, d in [x for x in pend if not (x[1][0] == "rel" and not x[1][1])]:
        # once the path is known to fail, or has used up its share of solver
        # time, obligations that need the solver stay open
        left = opts.get("judge_s", 90) - (time.time() - t0)
        if out["fails"]:
            left = min(left, 8 - (time.time() - t0))
        r = decide(ctx, out, label, neg, marg, d, opts, max(0, left))
        if r == "held":
            out["discharged"] += 1
        elif r == "unknown":
            out["inconclusive"].append(label)


def rounding(d, a, b):
    """the two sides are the same terms, with coefficients that differ by float rounding only."""
    a, b = numeric(a), numeric(b)
    d = p_add(a, b, -1)
    return all(abs(c) <= Fraction(1, 10**12) * max(abs(a.get(m, 0)), abs(b.get(m, 0))) for m, c in d.items())


def numeric(p):
    """roots of constants as numbers."""
    ctx, out = core.CTX, {}
    for m, c in p.items():
        keep = []
        for k, e in m:
            at = ctx.atoms[k]
            if at.kind == "sqrt" and isinstance(at.arg, dict) and all(not mm for mm in at.arg):
                c = c * Fraction(math.sqrt(float(at.arg.get((), 0)))) ** e
            else:
                keep.append((k, e))
        m = tuple(keep)
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def far(ctx, marg, mod):
    """|actual - expected| clearly above rounding under this model?"""
    sa, se, rtol = marg
    memo = {}
    x, y = ctx.eval(sa.p, mod, memo), ctx.eval(se.p, mod, memo)
    if x != x or y != y:
        return False
    sc = max([1.0] + [abs(ctx.eval_atom(a.id, mod, memo)) for a in ctx.vars.values()])
    return abs(x - y) > 3 * rtol * (abs(x) + abs(y)) + 1e-9 * sc + rtol * 1e-2


def trial_models(ctx, tries=40, keep=8):
    """inputs that follow the path, tried on an obligation before the solver is."""
    rnd = random.Random(len(ctx.decisions) * 31 + 7)
    ints = {a.id: float(ctx.models[-1].get(a.id, 0)) for a in ctx.vars.values() if a.arg} if ctx.models else {}
    out, t0 = [], time.time()
    for t in range(tries):
        if len(out) >= keep or time.time() - t0 > 2:
            break
        m = ctx.random_model(rnd, t, ints)
        try:
            if all(ctx._robust(c, m) for c in ctx.pc):
                out.append(m)
        except (OverflowError, ZeroDivisionError, ValueError):
            pass
    return out


def rounded(ctx, p, seen):
    """what is rounded on the way to p."""
    for m in p:
        for k, _ in m:
            if k in seen:
                continue
            seen.add(k)
            a = ctx.atoms[k]
            if a.kind in ("floor", "trunc", "rint") and isinstance(a.arg, dict):
                yield a.arg
            if a.kind != "var" and isinstance(a.arg, dict):
                yield from rounded(ctx, a.arg, seen)


def near_models(ctx, p, secs=4):
    """inputs that follow the path and make something rounded small: where rounding shows most."""
    t0, got = time.time(), []
    base = (ctx.models[-2:] + ctx.trial[:3]) if getattr(ctx, "trial", None) else ctx.models[-2:]
    for arg in list(rounded(ctx, p, set()))[:3]:
        for m in base:
            for v in ctx.vars.values():
                if v.arg or time.time() - t0 > secs:
                    continue

                def f(t):
                    return ctx.eval(arg, {**m, v.id: t}, {})
                pos = [10.0 ** (k / 3 - 4) for k in range(30)]
                ts = [t for t in ([-t for t in reversed(pos)] + pos if v.sign not in (">0", ">=0") else pos)
                      if (v.lo is None or t >= v.lo) and (v.hi is None or t <= v.hi)]
                try:
                    ys = [f(t) for t in ts]
                    for a, b, x, y in zip(ts, ts[1:], ys, ys[1:]):
                        for goal in (.3, .7, -.3):
                            if (x - goal) * (y - goal) < 0:
                                u, w = a, b
                                for _ in range(70):
                                    h = (u + w) / 2
                                    if (f(h) - goal) * (x - goal) > 0:
                                        u = h
                                    else:
                                        w = h
                                n = {**m, v.id: u}
                                if all(ctx._robust(c, n) for c in ctx.pc):
                                    got.append(n)
                except (OverflowError, ZeroDivisionError, ValueError):
                    continue
                if len(got) >= 6:
                    return got
    return got


def decide(ctx, out, label, neg, marg, d, opts, left):
    ms = min(opts.get("ob_timeout_ms", 8000), int(left * 1000))
    mods = list(ctx.models)
    if out["witness"] is not None:
        mods.insert(0, {a.id: out["witness"][n] for n, a in ctx.vars.items()})
    if isinstance(marg, tuple) and len(marg) == 3 and isinstance(marg[0], Sym):
        for m in mods:
            try:
                if far(ctx, marg, m) and all(ctx._robust(c, m) for c in ctx.pc):
                    out["fails"].append([label, ctx.eval(marg[0].p, m, {}), ctx.eval(marg[1].p, m, {}),
                                         model_to_witness(ctx, m)])
                    return "failed"
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        if not hasattr(ctx, "trial"):
            ctx.trial = trial_models(ctx)
        for m in ctx.trial:
            try:
                if far(ctx, marg, m):
                    out["fails"].append([label, ctx.eval(marg[0].p, m, {}), ctx.eval(marg[1].p, m, {}),
                                         model_to_witness(ctx, m)])
                    return "failed"
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        for m in near_models(ctx, {**marg[0].p, **marg[1].p}) if left > 0 and not out["fails"] else ():
            try:
                if far(ctx, marg, m):
                    out["fails"].append([label, ctx.eval(marg[0].p, m, {}), ctx.eval(marg[1].p, m, {}),
                                         model_to_witness(ctx, m)])
                    return "failed"
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        big = len(d) > 60 or any(ctx.atoms[k].kind == "alias" for mm in d for k, _ in mm)
        if big:
            e = core.expand(d)
            if e is not None and not e:
                r, _ = ctx.check([("rel", e, "!=")])
                if r == "unsat":
                    return "held"
            elif e is not None and len(e) < 400:
                neg = ("rel", e, "!=")
        if any(ctx.atoms[k].kind in ("ite", "abs") for mm in d for k, _ in mm) and core.cases_zero(d):
            ctx.note("case analysis of conditionals and absolute values")
            return "held"
        r, mod = ctx.check([neg], timeout_ms=ms) if ms > 0 else ("unknown", None)
        if r == "unsat":
            return "held"
        if r == "sat":
            if far(ctx, marg, mod):
                out["fails"].append([label, ctx.eval(marg[0].p, mod, {}), ctx.eval(marg[1].p, mod, {}),
                                     model_to_witness(ctx, mod)])
                return "failed"
            # different, but is it ever different by more than rounding?
            df = marg[0] - marg[1]
            tol = Fraction(1, 100000)
            q = ("or", [(lambda z: SymBool.of(z))(df > tol * (abs(marg[1]) + 1)),
                        (lambda z: SymBool.of(z))(df < -tol * (abs(marg[1]) + 1))])
            r, mod = ctx.check([q], timeout_ms=ms) if ms > 0 else ("unknown", None)
            if r == "unsat":
                return "held"
            if r == "sat":
                out["fails"].append([label, ctx.eval(marg[0].p, mod, {}), ctx.eval(marg[1].p, mod, {}),
                                     model_to_witness(ctx, mod)])
                return "failed"
        return "unknown"
    for m in mods:
        try:
            if ctx._robust(neg, m) and all(ctx._robust(c, m) for c in ctx.pc):
                out["fails"].append([label, "False", "True", model_to_witness(ctx, m)])
                return "failed"
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
    r, mod = ctx.check([neg], timeout_ms=ms) if ms > 0 else ("unknown", None)
    if r == "unsat":
        return "held"
    if r == "sat":
        out["fails"].append([label, "False", "True", model_to_witness(ctx, mod)])
        return "failed"
    return "unknown"


def sym_values(ctx, H, w):
    """what the encoding says the checked outputs are, for this witness."""
    mod = {a.id: w[n] for n, a in ctx.vars.items()}
    memo = {}
    vals = []
    for ob in H.obs:
        if ob[0] == "eq":
            a = ob[2]
            if isinstance(a, SymBool):
                vals.append(None)
            elif isinstance(a, Sym):
                vals.append(ctx.eval(a.p, mod, memo))
            else:
                try:
                    vals.append(float(a) if a is not None else math.nan)
                except (TypeError, ValueError):
                    vals.append(None)
        elif ob[0] == "same":
            vals.append(repr(ob[2]))
        else:
            vals.append(None)
    return vals


def run_conc(fn, params, w, as_int=False):
    H = ConcH(w, params, as_int)
    exc = None
    try:
        fn(H)
    except Skip as e:
        return {"skip": True, "fails": [], "exc": None, "values": [], "labels": [], "count": 0}
    except Exception as e:
        exc = "%s: %s @ %s" % (type(e).__name__, e, _where(e))
    return {"skip": False, "fails": H.fails[:20], "nfails": len(H.fails), "exc": exc, "values": H.values,
            "labels": H.obs, "count": H.count}
