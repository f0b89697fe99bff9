"""Symbolic reals, path exploration and solver queries.

A ``Sym`` is a real number in canonical form: a Laurent polynomial with exact
rational coefficients over *atoms*.  An atom is an input variable, a named
sub-expression (``alias``, so that products of quotients stay small), or the
result of sqrt / abs / log / exp / floor / a case split (``ite``).  Comparing
Syms asks the path explorer which way to go; the explorer enumerates every
feasible outcome, with z3 deciding feasibility.  NaN and the infinities are
never Syms: they stay Python floats, as they are in the code under test.
"""
import math
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

TERM_LIMIT = int(os.environ.get("SYMX_TERMS", "400"))


class EngineLimit(BaseException):
    """The encoding cannot represent what the code does: inconclusive."""


class Infeasible(BaseException):
    """The path contradicts an assumption: not a path of the harness."""


class OutOfBudget(BaseException):
    pass


# ----------------------------------------------------------------- the atoms
class Atom:
    __slots__ = ("id", "kind", "name", "arg", "sign", "lo", "hi", "z", "zi", "deps")

    def __init__(self, id_, kind, name, arg=None, sign=None, lo=None, hi=None):
        self.id, self.kind, self.name, self.arg = id_, kind, name, arg
        self.sign = sign            # None, ">0", ">=0", "!=0", "<0"
        self.lo, self.hi = lo, hi
        self.z = self.zi = None


ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k)
    return tuple(sorted(d.items()))


def mono_pow(a, n):
    return tuple((k, e * n) for k, e in a) if n else ()


def p_const(c):
    return {ONE: Fraction(c)} if c else {}


def p_add(a, b, f=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c * f
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_scale(a, f):
    if not f:
        return {}
    if f == 1:
        return a
    return {m: c * f for m, c in a.items()}


def p_mul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def p_key(p):
    return frozenset(p.items())


# ------------------------------------------------------------------ execution
GENERIC = "generic: two compound quantities are assumed not to be equal by coincidence"


class Prefix(list):
    """decisions of an unexplored path, with inputs known to follow it."""
    hint = None


class Ctx:
    """One execution of a harness: atoms, path condition, decisions."""

    def __init__(self, prefix=(), seed=1, timeout_ms=4000, generic=False):
        self.atoms = []
        self.by_key = {}
        self.pc = []                    # list of (poly, rel) known to hold
        self.assumed = []
        self.prefix = list(prefix)
        self.decisions = []             # outcomes taken at real forks
        self.open = []                  # unexplored alternatives (prefixes)
        self.models = []                # list of {atom id: float} satisfying pc
        self.solver = None
        self.n_asserted = 0
        self.timeout_ms = timeout_ms
        self.seed = seed
        self.stats = {"queries": 0, "solver_s": 0.0, "unknown": 0, "forks": 0,
                      "sat": 0, "unsat": 0}
        self.vars = {}
        self.sign_cache = {}
        self.defs_done = set()
        self.notes = []
        self.generic = generic
        self.numeric_roots = False           # roots of numbers as rationals (for triangles in a free unit)
        self.fp = {}
        self.iv, self.cl = {}, {}
        self.hint = getattr(prefix, "hint", None)
        if self.hint:
            self.models.append({})
            self.hinted = self.models[0]

    # -- atoms
    def atom(self, kind, name, key=None, arg=None, sign=None, lo=None, hi=None):
        if key is not None and (kind, key) in self.by_key:
            return self.by_key[(kind, key)]
        a = Atom(len(self.atoms), kind, name, arg, sign, lo, hi)
        self.atoms.append(a)
        if key is not None:
            self.by_key[(kind, key)] = a
        return a

    def var(self, name, sign=None, lo=None, hi=None, integer=False):
        if name in self.vars:
            raise EngineLimit("duplicate variable " + name)
        if sign is None and lo is not None:
            sign = ">0" if lo > 0 else (">=0" if lo >= 0 else None)
        a = self.atom("var", name, arg=integer, sign=sign, lo=lo, hi=hi)
        self.vars[name] = a
        if self.hint:
            v = self.hint.get(name)
            if v is None:
                v = float(lo) if lo is not None else (1.0 if sign in (">0", ">=0") else 0.5)
            self.hinted[a.id] = v
        return Sym({((a.id, 1),): Fraction(1)})

    def branch(self, cond):
        """leave the other side of a fork (cond holds there) for later."""
        p = Prefix(self.decisions + [0])
        m = next((m for m in self.models if self._robust(cond, m)), None)
        if m is not None:
            p.hint = {n: float(m[a.id]) for n, a in self.vars.items() if a.id in m}
        self.open.append(p)

    # -- signs.  returns one of ">0" "<0" ">=0" "<=0" "==0" None
    def mono_sign(self, m):
        """+1 >0, 2 >=0, 0 unknown."""
        s = 1
        for k, e in m:
            a = self.atoms[k]
            if a.sign == ">0":
                continue
            if e % 2 == 0:
                if e > 0 and a.sign != "!=0" and a.sign != "<0":
                    s = 2
                continue
            if a.sign == ">=0":
                if e > 0:
                    s = 2
                continue
            return 0
        return s

    def quick_sign(self, p):
        if not p:
            return "==0"
        pos = neg = True
        strict = False
        for m, c in p.items():
            s = self.mono_sign(m)
            if s == 0:
                return None
            if c > 0:
                neg = False
            else:
                pos = False
            if s == 1:
                strict = True
            if not pos and not neg:
                return self.quick_sign_bounds(p)
        if pos:
            return ">0" if strict else ">=0"
        return "<0" if strict else "<=0"

    def quick_sign_bounds(self, p):
        """Linear polynomial with interval bounds on its atoms."""
        lo = hi = Fraction(0)
        for m, c in p.items():
            if m == ONE:
                lo = None if lo is None else lo + c
                hi = None if hi is None else hi + c
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = self.atoms[m[0][0]]
            al, ah = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
            lo = None if lo is None or al is None else lo + c * al
            hi = None if hi is None or ah is None else hi + c * ah
        if lo is not None and lo > 0:
            return ">0"
        if hi is not None and hi < 0:
            return "<0"
        if lo is not None and lo >= 0:
            return ">=0"
        if hi is not None and hi <= 0:
            return "<=0"
        return None

    # -- z3
    def zatom(self, k):
        a = self.atoms[k]
        if a.z is None:
            a.z = z3.Int(a.name) if (a.kind == "var" and a.arg) else z3.Real("%s_%d" % (a.name, a.id))
            a.z = z3.ToReal(a.z) if z3.is_int(a.z) else a.z
            self._pending_defs.append(k)
        return a.z

    def zinv(self, k):
        a = self.atoms[k]
        if a.zi is None:
            z = self.zatom(k)
            a.zi = z3.Real("inv_%s_%d" % (a.name, a.id))
            self._pending.append(a.zi * z == 1)
            if a.sign == ">0":
                self._pending.append(a.zi > 0)
        return a.zi

    _pending = None
    _pending_defs = None

    def zpoly(self, p):
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for k, e in m:
                x = self.zatom(k) if e > 0 else self.zinv(k)
                for _ in range(abs(e)):
                    t = t * x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def zcond(self, cond):
        """cond: ("rel", poly, rel) | ("and", [..]) | ("or", [..]) | ("not", c)."""
        k = cond[0]
        if k == "rel":
            p, rel = self.clear(cond[1], cond[2])
            z = self.zpoly(p)
            return {"<": z < 0, "<=": z <= 0, "==": z == 0, "!=": z != 0,
                    ">": z > 0, ">=": z >= 0}[rel]
        if k == "and":
            return z3.And([self.zcond(c) for c in cond[1]])
        if k == "or":
            return z3.Or([self.zcond(c) for c in cond[1]])
        if k == "not":
            return z3.Not(self.zcond(cond[1]))
        if k == "const":
            return z3.BoolVal(cond[1])
        raise EngineLimit("cond " + str(k))

    def clear(self, p, rel):
        """Multiply by a positive monomial so that no exponent is negative."""
        low = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    low[k] = min(low.get(k, 0), e)
        if not low:
            return p, rel
        mul = []
        for k, e in low.items():
            a = self.atoms[k]
            n = -e
            if a.sign != ">0" and rel not in ("==", "!=") and n % 2:
                n += 1
            mul.append((k, n))
        mul = tuple(sorted(mul))
        return {mono_mul(m, mul): c for m, c in p.items()}, rel

    def drain(self, add):
        """Assert definitions of every atom mentioned so far."""
        while self._pending_defs or self._pending:
            pend, self._pending = self._pending, []
            for c in pend:
                add(c)
            ids, self._pending_defs = self._pending_defs, []
            for k in ids:
                a = self.atoms[k]
                z = a.z
                if a.sign == ">0":
                    add(z > 0)
                elif a.sign == ">=0":
                    add(z >= 0)
                elif a.sign == "!=0":
                    add(z != 0)
                elif a.sign == "<0":
                    add(z < 0)
                if a.lo is not None:
                    add(z >= z3.RealVal(str(Fraction(a.lo))))
                if a.hi is not None:
                    add(z <= z3.RealVal(str(Fraction(a.hi))))
                if a.kind == "alias":
                    p, _ = self.clear_def(k, a.arg)
                    add(p == 0)
                elif a.kind == "sqrt":
                    p, _ = self.clear_def(k, a.arg, power=2)
                    add(p == 0)
                elif a.kind == "abs":
                    zp = self.zpoly(a.arg)
                    add(z3.Or(z3.And(zp >= 0, z == zp), z3.And(zp <= 0, z == -zp)))
                elif a.kind == "ite":
                    cond, x, y = a.arg
                    zc = self.zcond(cond)
                    add(z == z3.If(zc, self.zpoly(x), self.zpoly(y)))
                elif a.kind == "floor":
                    zp = self.zpoly(a.arg)
                    n = z3.Int("fl_%d" % a.id)
                    add(z == z3.ToReal(n))
                    add(z3.And(z <= zp, zp < z + 1))
                elif a.kind == "trunc":
                    zp = self.zpoly(a.arg)
                    n = z3.Int("tr_%d" % a.id)
                    add(z == z3.ToReal(n))
                    add(z3.If(zp >= 0, z3.And(z <= zp, zp < z + 1), z3.And(z >= zp, zp > z - 1)))
                elif a.kind == "rint":
                    zp = self.zpoly(a.arg)
                    n, half = z3.Int("ri_%d" % a.id), z3.RealVal("1/2")
                    add(z == z3.ToReal(n))
                    add(z3.And(z - half <= zp, zp <= z + half))
                    add(z3.Implies(z3.Or(zp == z + half, zp == z - half), n % 2 == 0))     # ties go to even
                elif a.kind == "log":
                    zp = self.zpoly(a.arg)
                    add(z3.And(z3.Implies(zp > 1, z > 0), z3.Implies(zp == 1, z == 0),
                               z3.Implies(zp < 1, z < 0), z <= zp - 1))
                elif a.kind == "exp":
                    zp = self.zpoly(a.arg)
                    add(z3.And(z3.Implies(zp > 0, z > 1), z3.Implies(zp == 0, z == 1),
                               z3.Implies(zp < 0, z < 1), z >= zp + 1))

    def clear_def(self, k, p, power=1):
        """polynomial (as z3) for  atom^power - p == 0, denominators cleared."""
        d = p_add({((k, power),): Fraction(1)}, p, -1)
        d, _ = self.clear(d, "==")
        return self.zpoly(d), None

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            self.solver.set("random_seed", self.seed)
            if self._pending is None:
                self._pending, self._pending_defs = [], []
            for a in self.atoms:
                if a.kind == "var":
                    self.zatom(a.id)
        s = self.solver
        # a variable declared since
        while self.n_asserted < len(self.pc):
            c = self.zcond(self.pc[self.n_asserted])
            self.drain(s.add)
            s.add(c)
            self.n_asserted += 1
        self.drain(s.add)
        return s

    def fold(self, c):
        """name again what already has a name: sum -> its alias."""
        if c[0] == "not":
            return ("not", self.fold(c[1]))
        if c[0] in ("and", "or"):
            return (c[0], [self.fold(x) for x in c[1]])
        if c[0] != "rel":
            return c
        p = c[1]
        for a in reversed(self.atoms):
            if a.kind != "alias" or len(a.arg) > len(p):
                continue
            it = iter(a.arg.items())
            m0, c0 = next(it)
            if m0 not in p:
                continue
            r = p[m0] / c0
            if all(p.get(m) == r * x for m, x in it):
                p = p_add(p_add(p, a.arg, -r), {((a.id, 1),): r})
        return ("rel", p, c[2])

    def abstract(self, extra):
        """True when pc and extra are contradictory even with every named
        sub-expression left free (only its sign is kept): a small query."""
        if not any(self.atoms[k].kind != "var" for c in list(self.pc) + list(extra) for k in cond_atoms(c)):
            return False
        t0 = time.time()
        if self._pending is None:
            self._pending, self._pending_defs = [], []
        s = z3.Solver()
        s.set("timeout", 700)
        s.set("random_seed", self.seed)
        want = set()
        extra = [self.fold(c) for c in extra]
        for c in extra:
            want |= cond_atoms(c)
        cs, rest = [], [(c, cond_atoms(c)) for c in map(self.fold, self.pc)]
        grown = True
        while grown:                # only the conditions that share a symbol
            grown = False
            for x in list(rest):
                if x[1] & want:
                    cs.append(x[0])
                    want |= x[1]
                    rest.remove(x)
                    grown = True
        seen = set()

        def signs(ks):
            for k in ks - seen:
                a, z = self.atoms[k], self.zatom(k)
                if a.sign:
                    s.add({">0": z > 0, ">=0": z >= 0, "!=0": z != 0, "<0": z < 0}[a.sign])
                if a.lo is not None:
                    s.add(z >= z3.RealVal(str(Fraction(a.lo))))
                if a.hi is not None:
                    s.add(z <= z3.RealVal(str(Fraction(a.hi))))
            seen.update(ks)
        for c in cs + list(extra):
            s.add(self.zcond(c))
            signs(cond_atoms(c))
        for level in (0, 1):
            if level:              # and with their definitions, one level deep
                more = False
                for k in list(seen):
                    a = self.atoms[k]
                    if a.kind in ("alias", "sqrt"):
                        more = True
                        s.add(self.clear_def(k, a.arg, 2 if a.kind == "sqrt" else 1)[0] == 0)
                        signs(cond_atoms(("rel", a.arg, "==")))
                if not more:
                    break
            r = str(s.check())
            self.stats["queries"] += 1
            if r == "unsat":
                self.stats["unsat"] += 1
                break
        self.stats["solver_s"] += time.time() - t0
        return r == "unsat"

    def check(self, extra, timeout_ms=None, want_model=False):
        """-> ("sat"|"unsat"|"unknown", model or None) of pc and extra conds."""
        if extra and self.abstract(extra):
            return "unsat", None
        s = self._solver()
        t0 = time.time()
        zs = [self.zcond(c) for c in extra]
        self.drain(s.add)
        s.push()
        try:
            for z in zs:
                s.add(z)
            if timeout_ms:
                s.set("timeout", timeout_ms)
            r = str(s.check())
            if timeout_ms:
                s.set("timeout", self.timeout_ms)
            self.stats["queries"] += 1
            self.stats[r] += 1
            mod = None
            if r == "sat":
                m = s.model()
                mod = {}
                for a in self.atoms:
                    if a.z is not None:
                        mod[a.id] = z3val(m, a.z)
            return r, mod
        finally:
            s.pop()
            self.stats["solver_s"] += time.time() - t0

    # -- evaluation under a model
    def eval_atom(self, k, mod, memo):
        if k in memo:
            return memo[k]
        a = self.atoms[k]
        if a.kind == "var":
            v = mod.get(k)
            if v is None:
                v = a.lo if a.lo is not None else (a.hi if a.hi is not None else
                                                    {">0": 1.0, "<0": -1.0, "!=0": 1.0}.get(a.sign, 0.0))
                v = float(v) if a.sign != ">0" or v > 0 else 1.0
        elif a.kind == "uf":
            v = mod.get(k, 0.0)
        elif a.kind == "alias":
            v = self.eval(a.arg, mod, memo)
        elif a.kind == "sqrt":
            v = math.sqrt(max(0.0, self.eval(a.arg, mod, memo)))
        elif a.kind == "abs":
            v = abs(self.eval(a.arg, mod, memo))
        elif a.kind == "floor":
            v = math.floor(self.eval(a.arg, mod, memo))
        elif a.kind == "trunc":
            v = math.trunc(self.eval(a.arg, mod, memo))
        elif a.kind == "rint":
            v = round(self.eval(a.arg, mod, memo))
        elif a.kind == "log":
            x = self.eval(a.arg, mod, memo)
            v = math.log(x) if x > 0 else float("nan")
        elif a.kind == "exp":
            v = math.exp(min(700.0, self.eval(a.arg, mod, memo)))
        elif a.kind == "ite":
            cond, x, y = a.arg
            v = self.eval(x if self.eval_cond(cond, mod, memo) else y, mod, memo)
        else:
            raise EngineLimit("eval " + a.kind)
        v = float(v)
        memo[k] = v
        return v

    def eval(self, p, mod, memo):
        f = self.fp.get(id(p))
        if f is None:
            f = self.fp[id(p)] = (p, [(float(c), m) for m, c in p.items()])
        t = 0.0
        try:
            for x, m in f[1]:
                for k, e in m:
                    v = memo.get(k)
                    if v is None:
                        v = self.eval_atom(k, mod, memo)
                    x *= v if e == 1 else v ** e
                t += x
        except (ZeroDivisionError, OverflowError):
            return float("nan")
        return t

    def eval_cond(self, cond, mod, memo):
        k = cond[0]
        if k == "rel":
            v = self.eval(cond[1], mod, memo)
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0,
                    ">": v > 0, ">=": v >= 0}[cond[2]]
        if k == "and":
            return all(self.eval_cond(c, mod, memo) for c in cond[1])
        if k == "or":
            return any(self.eval_cond(c, mod, memo) for c in cond[1])
        if k == "not":
            return not self.eval_cond(cond[1], mod, memo)
        return cond[1]

    def magnitude(self, p, mod, memo):
        t = 0.0
        try:
            for m, c in p.items():
                x = abs(c.numerator / c.denominator)
                for k, e in m:
                    x *= abs(self.eval_atom(k, mod, memo)) ** e
                t += x
        except (ZeroDivisionError, OverflowError):
            return float("inf")
        return t

    # -- decisions
    def simplify_cond(self, cond):
        """-> True / False / cond."""
        k = cond[0]
        if k == "rel":
            p, rel = cond[1], cond[2]
            if not p:
                return rel in ("==", "<=", ">=")
            s = self.quick_sign(p)
            if s is None or (s == ">=0" and rel not in (">=", "<")) or (s == "<=0" and rel not in ("<=", ">")):
                if rel in (">", ">="):
                    p, rel = p_scale(p, Fraction(-1)), {">": "<", ">=": "<="}[rel]
                c = abs(p[min(p)])
                if rel in ("==", "!="):
                    c = p[min(p)]
                return ("rel", p_scale(p, 1 / c), rel)
            if s == ">0":
                return rel in (">", ">=", "!=")
            if s == "<0":
                return rel in ("<", "<=", "!=")
            if s == ">=0":
                if rel == ">=":
                    return True
                if rel == "<":
                    return False
            if s == "<=0":
                if rel == "<=":
                    return True
                if rel == ">":
                    return False
            return cond
        if k == "not":
            c = self.simplify_cond(cond[1])
            return (not c) if isinstance(c, bool) else cond
        if k in ("and", "or"):
            out = []
            for c in cond[1]:
                c = self.simplify_cond(c)
                if isinstance(c, bool):
                    if c == (k == "or"):
                        return c
                else:
                    out.append(c)
            if not out:
                return k == "and"
            return (k, out) if len(out) > 1 else out[0]
        return cond[1]

    def _remember(self, cond):
        self.pc.append(cond)
        keep = []
        for m in self.models:
            try:
                if self._robust(cond, m):
                    keep.append(m)
            except (OverflowError, ZeroDivisionError):
                pass
        self.models = keep[-6:]
        # sharpen the sign of a single variable
        if cond[0] == "rel" and len(cond[1]) == 1:
            (m, c), = cond[1].items()
            if len(m) == 1:
                a = self.atoms[m[0][0]]
                rel = cond[2]
                if c < 0:
                    rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(rel, rel)
                if m[0][1] % 2 == 1:
                    new = None
                    if rel == ">":
                        new = ">0"
                    elif rel == "<":
                        new = "<0"
                    elif rel == ">=":
                        new = ">0" if a.sign == "!=0" else ">=0"
                    elif rel == "!=":
                        new = ">0" if a.sign == ">=0" else ("!=0" if a.sign is None else None)
                    if new and a.sign in (None, ">=0", "!=0") and not (a.sign == "!=0" and new == ">=0"):
                        a.sign = new

    def _robust(self, cond, mod):
        """does the (floating point) model clearly satisfy cond?"""
        memo = {}
        if cond[0] == "rel":
            v = self.eval(cond[1], mod, memo)
            if v != v:
                return False
            if all(self.atoms[k].kind == "var" and self.atoms[k].arg for m in cond[1] for k, _ in m):
                v = round(v, 6)
                return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0, ">": v > 0, ">=": v >= 0}[cond[2]]
            eps = 1e-9 * self.magnitude(cond[1], mod, memo)
            rel = cond[2]
            if rel in ("<", "<="):
                return v < -eps
            if rel in (">", ">="):
                return v > eps
            if rel == "==":
                return False
            return abs(v) > eps
        if cond[0] == "and":
            return all(self._robust(c, mod) for c in cond[1])
        if cond[0] == "or":
            return any(self._robust(c, mod) for c in cond[1])
        if cond[0] == "not":
            return self._robust(negate(cond[1]), mod)
        return cond[1]

    def decide(self, cond):
        c = self.simplify_cond(cond)
        if isinstance(c, bool):
            return c
        key = cond_key(c)
        if key in self.sign_cache:
            return self.sign_cache[key]
        neg = negate(c)
        if self.generic and c[0] == "rel" and c[2] in ("<", "<=", ">", ">=") and self._nonzero_possible(c[1]):
            # no coincidence: either side of the boundary, never on it
            a = self.simplify_cond(("rel", c[1], c[2][0]))
            b = self.simplify_cond(("rel", c[1], "<" if c[2][0] == ">" else ">"))
            if not isinstance(a, bool) and not isinstance(b, bool):
                for k, v in ((a, True), (b, False)):
                    if cond_key(k) in self.sign_cache:
                        out = self.sign_cache[cond_key(k)] == v
                        break
                else:
                    out = self._decide(a, b)
                self.sign_cache[key] = out
                return out
        return self._decide(c, neg)

    def _nonzero_possible(self, p):
        if not self._compound(p):
            return False
        ne = ("rel", p, "!=")
        ok = any(self._robust(ne, m) for m in self.models)
        if not ok and len(self.decisions) >= len(self.prefix):
            self.sample_models(ne)
            ok = any(self._robust(ne, m) for m in self.models)
        if ok:
            self.note(GENERIC)
        return ok

    def _decide(self, c, neg):
        i = len(self.decisions)
        if i < len(self.prefix):
            out = self.prefix[i]
            self.decisions.append(out)
            if out in (4, 5):
                self._cache(c, out == 5)
                return out == 5
            if out in (0, 1):              # a real fork, both sides feasible
                self._remember(c if out else neg)
            else:                          # implied by the path condition
                self.pc.append(c if out == 3 else neg)
            out = bool(out) if out in (0, 1) else out == 3
            self._cache(c, out)
            if not out:
                self._cache(neg, True)
            return out
        q = self.interval_cond(c)
        if q is None:
            q = self.expanded(c)
        if isinstance(q, bool):
            # decided by interval evaluation or the normal form: nothing is added to the path
            self.stats["normal_form"] = self.stats.get("normal_form", 0) + 1
            self.decisions.append(5 if q else 4)
            self._cache(c, q)
            return q
        if self.generic:
            out = self._generic_inequality(c)
            if out is not None:
                return self._settled(c if out else neg, c, out)
        self.stats["forks"] += 1
        can_t = any(self._robust(c, m) for m in self.models)
        can_f = any(self._robust(neg, m) for m in self.models)
        if not can_t and self.refuted(c):
            return self._settled(neg, c, False)
        if not can_f and self.refuted(neg):
            return self._settled(c, c, True)
        can_t = can_t or any(self._robust(c, m) for m in self.models)
        can_f = can_f or any(self._robust(neg, m) for m in self.models)
        if not (can_t and can_f):
            self.sample_models(c if not can_t else neg)
            can_t = can_t or any(self._robust(c, m) for m in self.models)
            can_f = can_f or any(self._robust(neg, m) for m in self.models)
        if not can_t:
            r, mod = self.check([c])
            if r == "unknown":
                self.stats["unknown"] += 1
            if mod is not None:
                self.models.append(mod)
            can_t = r != "unsat"
        if not can_f:
            if can_t:
                r, mod = self.check([neg])
                if r == "unknown":
                    self.stats["unknown"] += 1
                if mod is not None:
                    self.models.append(mod)
                can_f = r != "unsat"
            else:
                can_f = True
        if can_t and can_f:
            self.branch(neg)
            out = 1
            self._remember(c)
        elif can_t:
            out = True
            self.pc.append(c)
        else:
            out = False
            self.pc.append(neg)
        # implied outcomes are recorded so that a replayed prefix asks nothing
        self.decisions.append(out if isinstance(out, int) and not isinstance(out, bool)
                              else (3 if out else 2))
        self._cache(c, bool(out))
        if not out:
            self._cache(neg, True)
        return bool(out)

    # -- outward-rounded rational intervals; None is an infinite end
    def interval_cond(self, cond, memo=None):
        """truth value of cond when interval evaluation settles it, else None."""
        memo = {} if memo is None else memo
        k = cond[0]
        if k == "rel":
            try:
                lo, hi = self.interval(cond[1], memo)
            except (EngineLimit, RecursionError):
                return None
            rel = cond[2]
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                pos = lo is not None and lo > 0
                return {"<": not pos, "<=": not pos, ">": pos, ">=": pos, "==": False, "!=": True}[rel]
            if lo == 0 and rel in ("<", ">="):
                return rel == ">="
            if hi == 0 and rel in (">", "<="):
                return rel == "<="
            return None
        if k == "not":
            q = self.interval_cond(cond[1], memo)
            return None if q is None else not q
        if k in ("and", "or"):
            qs = [self.interval_cond(c, memo) for c in cond[1]]
            if (k == "or") in qs:
                return k == "or"
            return None if None in qs else k == "and"
        return bool(cond[1])

    def interval(self, p, memo):
        lo = hi = Fraction(0)
        for m, c in p.items():
            a, b = c, c
            for k, e in m:
                x = self.interval_atom(k, memo)
                if e < 0:
                    l, h = x
                    pos = (l is not None and l > 0) or (l == 0 and self.atoms[k].sign == ">0")
                    if pos:
                        x = (Fraction(0) if h is None else 1 / h, None if l == 0 else 1 / l)
                    elif h is not None and h < 0:
                        x = (1 / h, Fraction(0) if l is None else 1 / l)
                    else:
                        x = (None, None)
                n = abs(e)
                if n % 2 == 0:
                    x = i_abs(x)
                for _ in range(n):
                    a, b = i_mul((a, b), x)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return i_round(lo, hi)

    def interval_atom(self, k, memo):
        v = self.iv.get(k)
        if v is not None:
            return v
        v = memo.get(k)
        if v is not None:
            return v
        a = self.atoms[k]
        if a.kind == "var":
            v = tuple(None if x is None else Fraction(x) for x in (a.lo, a.hi))
        elif a.kind == "alias":
            v = self.interval(a.arg, memo)
        elif a.kind == "abs":
            v = i_abs(self.interval(a.arg, memo))
        elif a.kind == "sqrt":
            l, h = self.interval(a.arg, memo)
            v = (i_sqrt(l)[0] if l is not None and l > 0 else Fraction(0), None if h is None or h < 0 else i_sqrt(h)[1])
        elif a.kind == "ite":
            cond, x, y = a.arg
            q = self.interval_cond(cond, memo)
            if q is None:
                v, w = self.interval(x, memo), self.interval(y, memo)
                v = (None if v[0] is None or w[0] is None else min(v[0], w[0]),
                     None if v[1] is None or w[1] is None else max(v[1], w[1]))
            else:
                v = self.interval(x if q else y, memo)
        elif a.kind in ("floor", "trunc", "rint"):
            l, h = self.interval(a.arg, memo)
            f = {"floor": math.floor, "trunc": math.trunc, "rint": round}[a.kind]
            v = (None if l is None else Fraction(f(l)), None if h is None else Fraction(f(h)))
        else:
            v = (None, None)
        lo, hi = v
        if a.sign in (">0", ">=0") and (lo is None or lo < 0):
            lo = Fraction(0)
        if a.sign == "<0" and (hi is None or hi > 0):
            hi = Fraction(0)
        v = (lo, hi)
        memo[k] = v
        if lo is not None and hi is not None and a.kind != "var" and self.closed(k):
            self.iv[k] = v
        return v

    def closed(self, k):
        """no free input beneath atom k."""
        v = self.cl.get(k)
        if v is None:
            a = self.atoms[k]
            if a.kind in ("alias", "abs", "sqrt"):
                v = all(self.closed(x) for m in a.arg for x, _ in m)
            elif a.kind == "ite":
                v = all(self.closed(x) for x in cond_atoms(a.arg[0])) and all(
                    self.closed(x) for q in a.arg[1:] for m in q for x, _ in m)
            else:
                v = False
            self.cl[k] = v
        return v

    def _compound(self, p):
        at = {k for m in p for k, _ in m}
        return len(at) + (() in p) >= 2 and not any(self.atoms[k].kind == "var" and self.atoms[k].arg for k in at)

    def _generic_inequality(self, c):
        """in generic position a compound expression that can be non-zero is.

        -> the outcome of c, or None."""
        if c[0] == "rel":
            parts, want = [c], c[2]
        elif c[0] in ("or", "and"):
            parts, want = c[1], "==" if c[0] == "or" else "!="
        else:
            return None
        if want not in ("==", "!=") or not all(x[0] == "rel" and x[2] == want and self._compound(x[1]) for x in parts):
            return None
        ne = [("rel", x[1], "!=") for x in parts]
        ne = ne[0] if len(ne) == 1 else ("and", ne)
        ok = any(self._robust(ne, m) for m in self.models)
        if not ok:
            self.sample_models(ne)
            ok = any(self._robust(ne, m) for m in self.models)
        if not ok:
            return None
        self.note(GENERIC)
        return want == "!="

    def refuted(self, cond):
        """a quick proof that cond contradicts the path (False: none found)."""
        if any(self.atoms[k].kind != "var" for c in self.pc + [cond] for k in cond_atoms(c)):
            return self.abstract([cond])
        r, mod = self.check([cond], timeout_ms=300)
        if mod is not None:
            self.models.append(mod)
        return r == "unsat"

    def _settled(self, fact, c, out):
        self.pc.append(fact)
        self.decisions.append(3 if out else 2)
        self._cache(c, out)
        return out

    def expanded(self, cond):
        """decide a comparison from its fully expanded form, when the signs of
        the terms settle it; else cond."""
        if cond[0] != "rel" or not any(self.atoms[k].kind == "alias" for m in cond[1] for k, _ in m):
            return cond
        e = expand(cond[1], 3000, positive=True)
        if e is None:
            return cond
        c = self.simplify_cond(("rel", e, cond[2]))
        return c

    def random_model(self, rnd, t, ints=None):
        m = dict(ints or {})
        for n, a in self.vars.items():
            if a.id in m:
                continue
            lo = float(a.lo) if a.lo is not None else None
            hi = float(a.hi) if a.hi is not None else None
            if a.arg:                        # integer
                m[a.id] = float(rnd.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 9)))
            elif lo is not None and hi is not None:
                m[a.id] = round(lo + (hi - lo) * rnd.random(), 3)
            elif a.sign in (">0", ">=0") or lo is not None:
                m[a.id] = (lo or 0) + float(rnd.randint(1, 400)) / (1 if t % 3 == 1 else (4 if t % 3 else 100))
            elif a.sign == "<0":
                m[a.id] = -float(rnd.randint(1, 400)) / 4
            else:
                m[a.id] = float(rnd.randint(-300, 700))
        return m

    def sample_models(self, want=None, k=24):
        """random inputs that follow the path so far (and want, if given)."""
        import random
        rnd = random.Random(len(self.pc) * 977 + len(self.decisions))
        ints = {}
        if any(a.arg for a in self.vars.values()):
            if not self.models:
                return
            ints = {a.id: float(self.models[-1].get(a.id, 0)) for a in self.vars.values() if a.arg}
        for t in range(k):
            m = self.random_model(rnd, t, ints)
            try:
                if want is not None and not self._robust(want, m):
                    continue
                if all(self._robust(c, m) for c in self.pc):
                    self.models.append(m)
                    return
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
        self.climb(rnd, want, ints)

    def excess(self, cond, mod, memo):
        """how far a model is from clearly satisfying cond (0: it does)."""
        k = cond[0]
        if k == "rel":
            v = self.eval(cond[1], mod, memo)
            g = self.magnitude(cond[1], mod, memo)
            if v != v or not g or g == float("inf"):
                return 1.0
            v, e = v / g, 2e-9
            rel = cond[2]
            if rel in ("<", "<="):
                return 0.0 if v < -e else v + 2 * e
            if rel in (">", ">="):
                return 0.0 if v > e else -v + 2 * e
            if rel == "!=":
                return 0.0 if abs(v) > e else e
            return abs(v)
        if k == "and":
            return sum(self.excess(c, mod, memo) for c in cond[1])
        if k == "or":
            return min(self.excess(c, mod, memo) for c in cond[1])
        if k == "not":
            return self.excess(negate(cond[1]), mod, memo)
        return 0.0 if cond[1] else 1.0

    def climb(self, rnd, want, ints, starts=3, steps=120):
        """local search for inputs that follow the path."""
        conds = self.pc + ([want] if want is not None else [])
        free = [a for a in self.vars.values() if a.id not in ints and not a.arg]
        if not free:
            return

        def cost(m):
            memo = {}
            try:
                return sum(self.excess(c, m, memo) for c in conds)
            except (OverflowError, ZeroDivisionError, ValueError):
                return 1e9
        pool = [dict(m) for m in self.models[-1:]]
        for t in range(starts):
            m = pool.pop() if pool else self.random_model(rnd, t, ints)
            best = cost(m)
            for _ in range(steps):
                if best == 0:
                    break
                n = dict(m)
                for a in rnd.sample(free, min(len(free), rnd.choice((1, 1, 2, 3)))):
                    v = float(n.get(a.id, 1.0) or 0.0)
                    r = rnd.random()
                    v = v * rnd.choice((.1, .5, .9, 1.1, 2., 10.)) if r < .8 else (
                        rnd.random() * 10 if r < .9 else v + rnd.uniform(-5, 5))
                    if a.sign in (">0", ">=0"):
                        v = max(abs(v), 1e-3)
                    if a.lo is not None:
                        v = max(v, float(a.lo))
                    if a.hi is not None:
                        v = min(v, float(a.hi))
                    n[a.id] = v
                c = cost(n)
                if c <= best:
                    m, best = n, c
            if best == 0 and all(self._robust(c, m) for c in conds):
                self.models.append(m)
                return

    def _cache(self, c, out):
        self.sign_cache[cond_key(c)] = out
        n = self.simplify_cond(negate(c))
        if not isinstance(n, bool):
            self.sign_cache[cond_key(n)] = not out
        if c[0] == "rel":
            rel = c[2] if out else _NEG[c[2]]
            if rel in ("<", ">", "=="):       # and what follows from it
                for r, v in ((("<=", True), ("!=", True)) if rel == "<" else ((">=", True), ("!=", True))
                             if rel == ">" else (("<=", True), (">=", True), ("<", False), (">", False))):
                    k = self.simplify_cond(("rel", c[1], r))
                    if not isinstance(k, bool):
                        self.sign_cache[cond_key(k)] = v
                    k = self.simplify_cond(negate(("rel", c[1], r)))
                    if not isinstance(k, bool):
                        self.sign_cache[cond_key(k)] = not v

    def assume(self, cond):
        c = self.simplify_cond(cond)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.assumed.append(c)
        self._remember(c)
        if c[0] == "rel":
            self._cache(c, True)

    def note(self, t):
        if t not in self.notes:
            self.notes.append(t)

    def feasible(self):
        r, mod = self.check([])
        if mod is not None:
            self.models.append(mod)
        return r


def i_mul(x, y):
    # ends with their signs; an infinite end times zero is zero
    big = "inf"
    out = []
    for u, su in ((x[0], -1), (x[1], 1)):
        for v, sv in ((y[0], -1), (y[1], 1)):
            if u is None or v is None:
                if u == 0 or v == 0:
                    out.append(Fraction(0))
                    continue
                a = su if u is None else (1 if u > 0 else -1)
                b = sv if v is None else (1 if v > 0 else -1)
                out.append((big, a * b))
            else:
                out.append(u * v)
    fin = [o for o in out if not isinstance(o, tuple)]
    lo = None if (big, -1) in out else min(fin) if fin else None
    hi = None if (big, 1) in out else max(fin) if fin else None
    return lo, hi


def i_abs(x):
    lo, hi = x
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -hi, None if lo is None else -lo
    return Fraction(0), None if lo is None or hi is None else max(-lo, hi)


BITS = 200


def i_sqrt(x):
    """rational bounds of the root of a positive rational."""
    n = (x.numerator << (2 * BITS)) // x.denominator
    r = math.isqrt(n)
    return Fraction(r, 1 << BITS), Fraction(r + 1, 1 << BITS)


def i_round(lo, hi):
    """outward rounding keeps the numbers short."""
    if lo is not None and lo.denominator.bit_length() > 2 * BITS:
        lo = Fraction((lo.numerator << BITS) // lo.denominator, 1 << BITS)
    if hi is not None and hi.denominator.bit_length() > 2 * BITS:
        hi = Fraction(-((-hi.numerator << BITS) // hi.denominator), 1 << BITS)
    return lo, hi


def cond_atoms(c):
    k = c[0]
    if k == "rel":
        return {a for m in c[1] for a, _ in m}
    if k == "not":
        return cond_atoms(c[1])
    if k == "const":
        return set()
    out = set()
    for x in c[1]:
        out |= cond_atoms(x)
    return out


def cond_key(c):
    k = c[0]
    if k == "rel":
        return ("rel", p_key(c[1]), c[2])
    if k == "not":
        return ("not", cond_key(c[1]))
    if k == "const":
        return c
    return (k, tuple(cond_key(x) for x in c[1]))


_NEG = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}


def negate(c):
    k = c[0]
    if k == "rel":
        return ("rel", c[1], _NEG[c[2]])
    if k == "not":
        return c[1]
    if k == "and":
        return ("or", [negate(x) for x in c[1]])
    if k == "or":
        return ("and", [negate(x) for x in c[1]])
    return ("const", not c[1])


def z3val(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return 0.0


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CTX.decide(self.c)

    def __invert__(self):
        return SymBool(negate(self.c))

    @staticmethod
    def of(x):
        return x.c if isinstance(x, SymBool) else ("const", bool(x))

    def __and__(self, o):
        return SymBool(("and", [self.c, SymBool.of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(("or", [self.c, SymBool.of(o)]))

    __ror__ = __or__

    def logical_not(self):
        return ~self

    def __mul__(self, o):
        return ite(self, 1, 0) * o

    __rmul__ = __mul__

    def __hash__(self):
        return hash(cond_key(self.c))

    def __repr__(self):
        return "SymBool"


def ite(b, x, y):
    """case split as a value, without forking the path."""
    if isinstance(b, SymBool):
        c = CTX.simplify_cond(b.c)
        if not isinstance(c, bool):
            k = CTX.sign_cache.get(cond_key(c))
            if k is not None:
                c = k
    else:
        c = bool(b)
    if isinstance(c, bool):
        return x if c else y
    sx, sy = lift(x), lift(y)
    if sx is None or sy is None:
        return x if CTX.decide(c) else y
    if sx.p == sy.p:
        return sx
    qx, qy = CTX.quick_sign(sx.p), CTX.quick_sign(sy.p)
    sign = None
    if qx == qy and qx in (">0", ">=0", "<0"):
        sign = qx
    elif {qx, qy} <= {">0", ">=0", "==0"}:
        sign = ">=0"
    a = CTX.atom("ite", "ite", key=(cond_key(c), p_key(sx.p), p_key(sy.p)),
                 arg=(c, sx.p, sy.p), sign=sign)
    return Sym({((a.id, 1),): Fraction(1)})


# ------------------------------------------------------------------------- Sym
def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 \
        and x.dtype.kind in "biuf"


def lift(x):
    """number -> Sym; None when it is NaN or infinite (or not a number)."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return Sym(p_const(int(x)))
    if isinstance(x, (int, Fraction)):
        return Sym(p_const(x))
    if isinstance(x, SymBool):
        return lift(ite(x, 1, 0))
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    if f != f or f in (math.inf, -math.inf):
        return None
    return Sym(p_const(Fraction(f)))


def reduce_poly(p):
    """canonical powers: sqrt atoms have exponent 0 or 1, and so do abs atoms
    (s^2 -> argument, |x|^2 -> x^2)."""
    atoms = CTX.atoms
    while True:
        todo = None
        for m in p:
            for k, e in m:
                if e != 1 and atoms[k].kind in ("sqrt", "abs"):
                    todo = k
                    break
            if todo is not None:
                break
        if todo is None:
            return p
        a = atoms[todo]
        out = {}
        for m, c in p.items():
            e = dict(m).get(todo, 0)
            if e in (0, 1):
                out = p_add(out, {m: c})
                continue
            h = e // 2
            rest = mono_mul(m, ((todo, -2 * h),))
            base = a.arg
            if a.kind == "abs":
                (bm, bc), = base.items()
                bm, bc = mono_pow(bm, 2), bc * bc
            else:
                if len(base) > 1:
                    base = alias(base).p
                (bm, bc), = base.items()
            out = p_add(out, {mono_mul(rest, mono_pow(bm, h)): c * bc ** h})
        p = out


def alias(p):
    """single-term Sym equal to p; canonical up to a constant and a monomial."""
    if len(p) <= 1:
        return Sym(p)
    # common monomial factor
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            for k in list(common):
                e = d.get(k, 0)
                c = common[k]
                if (c > 0) != (e > 0) or e == 0:
                    del common[k]
                else:
                    common[k] = min(c, e) if c > 0 else max(c, e)
            for k, e in d.items():
                pass
    cm = tuple(sorted((common or {}).items()))
    inv = mono_pow(cm, -1)
    q = {mono_mul(m, inv): c for m, c in p.items()}
    lead = min(q)
    lc = q[lead]
    q = p_scale(q, 1 / lc)
    s = CTX.quick_sign(q)
    key = p_key(q)
    a = CTX.by_key.get(("alias", key))
    if a is None:
        a = CTX.atom("alias", "t", key=key, arg=q, sign=s if s in (">0", ">=0", "<0") else None)
    return Sym({mono_mul(((a.id, 1),), cm): lc})


def mul_p(a, b):
    if len(a) * len(b) > TERM_LIMIT:
        if len(a) > 1:
            a = alias(a).p
        if len(a) * len(b) > TERM_LIMIT and len(b) > 1:
            b = alias(b).p
    return reduce_poly(p_mul_raw(a, b))


class Sym:
    __slots__ = ("p", "_h")

    def __init__(self, p):
        self.p = p
        self._h = None

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, (Sym,)):
            return f(self, o)
        if isinstance(o, SymBool):
            return f(self, lift(o))
        if not _isnum(o):
            return NotImplemented
        s = lift(o)
        if s is None:
            return None
        return f(self, s)

    def __add__(self, o):
        r = self._bin(o, lambda a, b: Sym(p_add(a.p, b.p)))
        return float(o) if r is None else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: Sym(p_add(a.p, b.p, -1)))
        return -float(o) if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: Sym(p_add(b.p, a.p, -1)))
        return float(o) if r is None else r

    def __mul__(self, o):
        r = self._bin(o, lambda a, b: Sym(mul_p(a.p, b.p)))
        if r is None:
            return self._times_special(float(o))
        return r

    __rmul__ = __mul__

    def _times_special(self, o):
        if o != o:
            return math.nan
        if self > 0:
            return o
        if self < 0:
            return -o
        return math.nan

    def __truediv__(self, o):
        r = self._bin(o, _div)
        if r is None:
            return math.nan if float(o) != float(o) else 0.0
        return r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: _div(b, a))
        if r is None:
            o = float(o)
            if o != o:
                return o
            return o if self >= 0 else -o
        return r

    def __neg__(self):
        return Sym(p_scale(self.p, Fraction(-1)))

    def __pos__(self):
        return self

    def __abs__(self):
        s = CTX.quick_sign(self.p)
        if s in (">0", ">=0", "==0"):
            return self
        if s in ("<0", "<=0"):
            return -self
        x = alias(self.p) if len(self.p) > 1 else self
        (m, c), = x.p.items()
        out = Sym({ONE: abs(c)})
        for k, e in m:
            at = CTX.atoms[k]
            if at.sign in (">0", ">=0"):
                f = Sym({((k, e),): Fraction(1)})
            elif e % 2 == 0:
                f = Sym({((k, e),): Fraction(1)})
            else:
                ab = CTX.atom("abs", "abs", key=k, arg={((k, 1),): Fraction(1)},
                              sign=">0" if at.sign in ("!=0", "<0") else ">=0")
                f = Sym({((ab.id, e),): Fraction(1)})
            out = out * f
        return out

    def __pow__(self, n):
        if isinstance(n, Sym):
            if len(n.p) == 0 or (len(n.p) == 1 and ONE in n.p):
                n = n.p.get(ONE, Fraction(0))
            else:
                return (self.log() * n).exp()
        n = float(n) if not isinstance(n, (int, Fraction)) else n
        if n == int(n):
            n = int(n)
            if n == 0:
                return Sym(p_const(1))
            r = self
            if abs(n) > 1 and len(self.p) > 1:
                r = alias(self.p)
            b = r
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else 1 / r
        if n == 0.5:
            return self.sqrt()
        if n == -0.5:
            return 1 / self.sqrt()
        if n == 1.5:
            return self * self.sqrt()
        return (self.log() * Fraction(n)).exp()

    def __rpow__(self, b):
        return (lift(b).log() * self).exp()

    def square(self):
        return self ** 2

    def reciprocal(self):
        return 1 / self

    def conjugate(self):
        return self

    # -- functions
    def sqrt(self, nonneg=False):
        s = CTX.quick_sign(self.p)
        if s == "==0":
            return Sym({})
        if s not in (">0", ">=0"):
            if not nonneg and self < 0:
                return math.nan
            s = ">=0"
        x = self
        if len(x.p) > 1:
            x = alias(x.p)
            (m, c), = x.p.items()
            # the sign just established is a fact about the alias
        else:
            (m, c), = x.p.items()
        out = Sym(p_const(1))
        rest = []
        for k, e in m:
            a = CTX.atoms[k]
            h = e // 2
            if e % 2 == 0 and a.sign not in (">0", ">=0"):
                out = out * abs(Sym({((k, abs(h)),): Fraction(1)})) if h > 0 else out / abs(Sym({((k, abs(h)),): Fraction(1)}))
                continue
            if h:
                out = out * Sym({((k, h),): Fraction(1)})
            if e % 2:
                rest.append((k, 1))
        rc = c
        n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
        if c > 0 and n * n == c.numerator and d * d == c.denominator:
            out = out * Fraction(n, d)
            rc = Fraction(1)
        rest = tuple(sorted(rest))
        arg = {rest: rc}
        if rest == ONE and rc == 1:
            return out
        if rc > 0 and rest and all(CTX.atoms[k].sign in (">0", ">=0") for k, _ in rest):
            # split into single roots so that products of roots are canonical
            for k, _ in rest:
                a = CTX.atom("sqrt", "sqrt", key=frozenset({(((k, 1),), Fraction(1))}),
                             arg={((k, 1),): Fraction(1)}, sign=CTX.atoms[k].sign)
                out = out * Sym({((a.id, 1),): Fraction(1)})
            if rc != 1:
                out = out * (Fraction(math.sqrt(float(rc))) if CTX.numeric_roots else Sym({ONE: rc}).sqrt())
            return out
        if CTX.numeric_roots and rest == ONE and rc > 0:
            return out * Fraction(math.sqrt(float(rc)))
        a = CTX.atom("sqrt", "sqrt", key=p_key(arg), arg=arg,
                     sign=">0" if s == ">0" else ">=0")
        return out * Sym({((a.id, 1),): Fraction(1)})

    def log(self):
        s = CTX.quick_sign(self.p)
        if s != ">0":
            if not (self > 0):
                return -math.inf if self == 0 else math.nan
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if len(m) >= 1 and (c != 1 or len(m) > 1 or m[0][1] != 1):
                if c > 0 and all(CTX.atoms[k].sign == ">0" for k, _ in m):
                    t = Sym({ONE: c}).log() if c != 1 else Sym({})
                    for k, e in m:
                        t = t + e * Sym({((k, 1),): Fraction(1)}).log()
                    return t
            if m == ONE and c == 1:
                return Sym({})
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                a = CTX.atoms[m[0][0]]
                if a.kind == "exp":
                    return Sym(a.arg)
                if a.kind == "sqrt":
                    return Sym(a.arg).log() / 2
        sg = CTX.quick_sign(p_add(self.p, p_const(1), -1))
        arg = self.p
        a = CTX.atom("log", "log", key=p_key(arg), arg=arg,
                     sign=sg if sg in (">0", ">=0", "<0") else None)
        return Sym({((a.id, 1),): Fraction(1)})

    def exp(self):
        if not self.p:
            return Sym(p_const(1))
        out = Sym(p_const(1))
        for m, c in self.p.items():
            if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "log" and c.denominator in (1, 2):
                b = Sym(CTX.atoms[m[0][0]].arg)
                if c.denominator == 2:
                    b = b.sqrt()
                    out = out * b ** int(c * 2)
                else:
                    out = out * b ** int(c)
                continue
            if m == ONE:
                out = out * Fraction(math.exp(float(c)))
                continue
            sc = 1 if c > 0 else -1
            # exp(c*m): one atom per (|c|*m), inverse for the negative sign
            arg = {m: abs(c)}
            s = CTX.quick_sign(arg)
            a = CTX.atom("exp", "exp", key=p_key(arg), arg=arg, sign=">0",
                         lo=1 if s in (">0", ">=0") else None)
            out = out * Sym({((a.id, sc),): Fraction(1)})
        return out

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def _round(self, kind):
        if len(self.p) == 0 or (len(self.p) == 1 and ONE in self.p):
            v = self.p.get(ONE, Fraction(0))
            return Sym(p_const({"floor": math.floor, "trunc": math.trunc, "rint": round}[kind](v)))
        if all(c.denominator == 1 and all(CTX.atoms[k].kind == "var" and CTX.atoms[k].arg and e > 0 for k, e in m)
               for m, c in self.p.items()):
            return self
        a = CTX.atom(kind, kind, key=p_key(self.p), arg=self.p)
        return Sym({((a.id, 1),): Fraction(1)})

    def floor(self):
        return self._round("floor")

    def __floor__(self):
        return self._round("floor")

    def ceil(self):
        return -((-self)._round("floor"))

    __ceil__ = ceil

    def trunc(self):
        return self._round("trunc")

    __trunc__ = trunc

    def rint(self):
        return self._round("rint")

    def __round__(self, n=None):
        if not n:
            return self._round("rint")
        k = Fraction(10) ** int(n)
        return (self * k)._round("rint") / k

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    # -- comparisons
    def _cmp(self, o, rel):
        if isinstance(o, SymBool):
            o = lift(o)
        if not isinstance(o, Sym):
            if o is None or isinstance(o, str) or not _isnum(o):
                return NotImplemented
            s = lift(o)
            if s is None:
                o = float(o)
                if o != o:
                    return rel == "!="
                if rel == "==":
                    return False
                if rel == "!=":
                    return True
                return (o > 0) == (rel in ("<", "<="))
            o = s
        c = CTX.simplify_cond(("rel", p_add(self.p, o.p, -1), rel))
        return c if isinstance(c, bool) else SymBool(c)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self._h is None:
            self._h = hash(p_key(self.p))
        return self._h

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if not self.p:
            return 0.0
        if len(self.p) == 1 and ONE in self.p:
            return float(self.p[ONE])
        raise EngineLimit("float() of a symbolic value")

    def __int__(self):
        if not self.p or (len(self.p) == 1 and ONE in self.p):
            return int(self.p.get(ONE, 0))
        raise EngineLimit("int() of a symbolic value")

    def __index__(self):
        raise EngineLimit("index by a symbolic value")

    def __repr__(self):
        return show(self.p)

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def is_integer(self):
        return False


class Lazy(Sym):
    """a value worked out when it is first needed (an order statistic nobody
    looks at costs no case splits)."""
    __slots__ = ("_f", "_v")

    def __init__(self, f):
        self._f, self._v, self._h = f, None, None

    @property
    def p(self):
        if self._v is None:
            v = lift(self._f())
            if v is None:
                raise EngineLimit("a lazy value is not a number")
            self._v = v.p
        return self._v


def _div(a, b):
    if not b.p:
        if not a.p:
            return math.nan
        return math.inf if a > 0 else (-math.inf if a < 0 else math.nan)
    if len(b.p) == 1 and ONE in b.p:
        return Sym(p_scale(a.p, 1 / b.p[ONE]))
    s = CTX.quick_sign(b.p)
    nz = s in (">0", "<0")
    d = b if len(b.p) == 1 else alias(b.p)
    (m, c), = d.p.items()
    if not nz:
        nz = all(CTX.atoms[k].sign in (">0", "<0", "!=0") for k, _ in m)
    if not nz and len(d.p) == 1 and CTX.generic:
        e = CTX.expanded(("rel", b.p, "!="))
        nz = e is True
        if e is not True and e is not False and not any(CTX.atoms[k].kind == "var" for k, _ in m):
            # generic position: an unresolved compound denominator is not zero
            CTX.assume(("rel", b.p, "!="))
            CTX.note("generic: a compound denominator is assumed non-zero")
            nz = True
            for k, _ in m:
                at = CTX.atoms[k]
                at.sign = "!=0" if at.sign is None else (">0" if at.sign == ">=0" else at.sign)
    if not nz:
        if b == 0:
            if a == 0:
                return math.nan
            return math.inf if a > 0 else -math.inf
        for k, _ in m:
            at = CTX.atoms[k]
            if at.sign is None:
                at.sign = "!=0"
            elif at.sign == ">=0":
                at.sign = ">0"
    inv = Sym({mono_pow(m, -1): 1 / c})
    if len(a.p) > 1 and len(b.p) > 1:
        n = alias(a.p)
        return Sym(reduce_poly(p_mul_raw(n.p, inv.p)))
    return Sym(reduce_poly(p_mul_raw(a.p, inv.p)))


def generic_nonzero(x):
    """in generic position a scale parameter >= 0 that is not identically 0 is > 0."""
    if not isinstance(x, Sym) or not CTX.generic or CTX.quick_sign(x.p) != ">=0":
        return
    if len(x.p) != 1:
        return
    (m, c), = x.p.items()
    if all(CTX.atoms[k].kind == "var" for k, _ in m if CTX.atoms[k].sign != ">0"):
        return
    CTX.assume(("rel", x.p, "!="))
    CTX.note("generic: a compound scale is assumed non-zero")
    for k, _ in m:
        at = CTX.atoms[k]
        at.sign = "!=0" if at.sign is None else (">0" if at.sign == ">=0" else at.sign)
        if at.kind == "sqrt":
            generic_nonzero(Sym(at.arg))


def show(p, depth=0):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:12]:
        t = [] if c == 1 and m else [str(c)]
        for k, e in m:
            a = CTX.atoms[k] if CTX else None
            n = a.name if a and a.kind == "var" else ("%s%d" % (a.kind if a else "a", k))
            t.append(n if e == 1 else "%s^%d" % (n, e))
        out.append("*".join(t))
    return " + ".join(out) + (" + ..." if len(p) > 12 else "")


# --------------------------------------------------------- rational identities
def expand(p, limit=20000, positive=False):
    """substitute alias definitions and clear denominators; {} iff the rational
    function is identically zero (None when it grows past the limit).  With
    positive, only positive quantities are multiplied through."""
    for _ in range(200):
        k = None
        for m in p:
            for kk, e in m:
                a = CTX.atoms[kk]
                if a.kind == "alias" and (k is None or kk > k):
                    k = kk
        # clear negative exponents of k (or of all atoms when none is left)
        if k is None:
            p, _ = CTX.clear(p, "<" if positive else "==")
            p = reduce_poly(p)
            return p
        low = min([dict(m).get(k, 0) for m in p] + [0])
        if low < 0:
            if positive and CTX.atoms[k].sign != ">0" and low % 2:
                low -= 1
            p = {mono_mul(m, ((k, -low),)): c for m, c in p.items()}
        d = CTX.atoms[k].arg
        powers = {0: p_const(1)}
        out = {}
        for m, c in p.items():
            e = dict(m).get(k, 0)
            rest = tuple(x for x in m if x[0] != k)
            if e not in powers:
                for j in range(1, e + 1):
                    if j not in powers:
                        powers[j] = p_mul_raw(powers[j - 1], d)
            out = p_add(out, p_mul_raw({rest: c}, powers[e]))
            if len(out) > limit:
                return None
        p = reduce_poly(out)
        if not p:
            return p
    return None


def substitute(p, k, q):
    """p with atom k replaced by the polynomial q (None: a negative power of a sum)."""
    out = {}
    for m, c in p.items():
        e = dict(m).get(k, 0)
        if e == 0:
            out = p_add(out, {m: c})
            continue
        t = {tuple(x for x in m if x[0] != k): c}
        if e < 0:
            if len(q) != 1:
                return None
            (mq, cq), = q.items()
            t = p_mul_raw(t, {mono_pow(mq, e): cq ** e})
        else:
            for _ in range(e):
                t = p_mul_raw(t, q)
        out = p_add(out, t)
    return reduce_poly(out)


def atom_signs(c):
    """what a relation implies for signs: {frozenset of atoms: sign of their product}."""
    if c[0] == "and":
        out = {}
        for x in c[1]:
            out.update(atom_signs(x))
        return out
    if c[0] != "rel" or c[2] in ("==", "!=") or not c[1]:
        return {}
    (m, k), = alias(c[1]).p.items()
    s = (1 if k > 0 else -1) * (1 if c[2] in (">", ">=") else -1)
    odd = []
    for a, e in m:
        g = CTX.atoms[a].sign
        if g == ">0" or (g == ">=0" and e > 0):
            continue
        if g == "<0" or e % 2 == 0:
            if e % 2:
                s = -s
            continue
        odd.append(a)
    # the sign of a product settles one factor only where no other is zero,
    # which is assumed of compound expressions in generic position alone
    return {frozenset(odd): s} if odd and (len(odd) == 1 or CTX.generic) else {}


def _settle(facts):
    """unit propagation over signs of products (conflicts keep the older fact:
    such a case is empty or meets only zeros)."""
    facts = dict(facts)
    while True:
        one = {next(iter(f)): s for f, s in facts.items() if len(f) == 1}
        out = {frozenset((a,)): s for a, s in one.items()}
        for f, s in facts.items():
            if len(f) == 1:
                continue
            for a in list(f):
                if a in one:
                    f = f - {a}
                    s *= one[a]
            if f:
                out.setdefault(f, s)
        if out == facts:
            return facts
        facts = out


def cases_zero(p, facts=None, depth=9):
    """p is identically zero in every case of its conditionals and absolute values."""
    if not p:
        return True
    if depth == 0 or len(p) > 4000:
        return False
    facts = facts or {}
    k = None
    for m in p:
        for a, e in m:
            r = (CTX.atoms[a].kind == "ite", a)
            if CTX.atoms[a].kind in ("ite", "abs") and (k is None or r > (CTX.atoms[k].kind == "ite", k)):
                k = a
    if k is None:
        e = expand(p) if any(CTX.atoms[a].kind == "alias" for m in p for a, _ in m) else p
        return e is not None and not e
    at = CTX.atoms[k]
    if at.kind == "abs":
        (t, _), = next(iter(at.arg))
        t1 = frozenset((t,))
        subs = [(p_scale(at.arg, Fraction(s)), {t1: s}) for s in ((facts[t1],) if t1 in facts else (1, -1))]
    else:
        c, x, y = at.arg
        subs = [(x, atom_signs(c)), (y, atom_signs(negate(c)))]
    for q, add in subs:
        r = substitute(p, k, q)
        if r is None or not cases_zero(r, _settle({**add, **facts}), depth - 1):
            return False
    return True
