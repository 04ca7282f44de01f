"""Term language of the symbolic executor.

A term is a `Sym`: a Laurent polynomial with exact rational coefficients over *atoms*.  Atoms are inputs, random draws,
applications of uninterpreted functions (user drift, path cost, score estimate), exp/sqrt/1/min/max/abs/if-then-else of
terms, entries of opaque matrix inverses, and names of stored states (`def`).  Arithmetic keeps a term in normal form, so
terms that are equal as rational expressions over the same atoms are usually identical objects; what is left is decided by
the SMT solver (see smt.py).
"""
from fractions import Fraction
import math
import numbers

import numpy as np


class Unsupported(Exception):
    """The encoding does not cover something the code under test did."""


ATOMS = []          # id -> Atom
_INTERN = {}        # key -> Atom
ORDER_EXP = "exp"


class Atom:
    __slots__ = ("id", "kind", "data", "name", "info")

    def __init__(self, kind, data, name, info):
        self.id = len(ATOMS)
        self.kind = kind
        self.data = data
        self.name = name
        self.info = info
        ATOMS.append(self)

    def __repr__(self):
        return self.name


def reset():
    del ATOMS[:]
    _INTERN.clear()
    global _CTX
    _MM.clear()
    from . import smt
    smt.CTX = smt.Ctx()


def atom(kind, data, name=None, info=None):
    key = (kind, data)
    a = _INTERN.get(key)
    if a is None:
        a = Atom(kind, data, name or "%s_%d" % (kind, len(ATOMS)), info)
        _INTERN[key] = a
    return a


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    if isinstance(x, numbers.Real):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported("non-finite constant %r" % f)
        return Fraction(repr(f))
    raise TypeError("cannot make a term of %r" % type(x))


# ---------------------------------------------------------------- monomials
# monomial: tuple of (atom id, nonzero int power) sorted by id; at most one exp atom, with power 1

_MM = {}


def _mono_mul(a, b):
    """product of two monomials -> (monomial, Sym factor or None)"""
    if not a:
        return b, None
    if not b:
        return a, None
    key = (a, b)
    r = _MM.get(key)
    if r is not None:
        return r
    d = {}
    for i, e in a:
        d[i] = e
    for i, e in b:
        d[i] = d.get(i, 0) + e
    r = _mono_norm(d)
    if len(_MM) > 400000:
        _MM.clear()
    _MM[key] = r
    return r


def _mono_norm(d):
    out = []
    exps = None
    extra = None
    for i, e in d.items():
        if e == 0:
            continue
        at = ATOMS[i]
        k = at.kind
        if k == "exp":
            t = at.data * e
            exps = t if exps is None else exps + t
        elif k == "sqrt" and (e >= 2 or e < 0):
            h = e // 2
            f = at.data ** h
            extra = f if extra is None else extra * f
            if e % 2:
                out.append((i, 1))
        elif k == "recip" and e < 0:
            f = at.data ** (-e)
            extra = f if extra is None else extra * f
        elif k == "abs" and e >= 2:
            f = at.data ** (e - e % 2)
            extra = f if extra is None else extra * f
            if e % 2:
                out.append((i, 1))
        else:
            out.append((i, e))
    if exps is not None and exps.terms:
        out.append((atom("exp", exps).id, 1))
    out.sort()
    return tuple(out), extra


_HCACHE = {}


class Sym:
    __slots__ = ("terms", "_key", "_hash")
    __array_priority__ = 1000.0

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._hash = None

    # ---- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({(): c}) if c else Sym({})

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return ite(x, 1, 0)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Sym.of(x.item())
        return Sym.const(x)

    @staticmethod
    def atom(a):
        if a.kind == "exp":
            return Sym({((a.id, 1),): Fraction(1)})
        return Sym({((a.id, 1),): Fraction(1)})

    # ---- identity
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.terms.items()))
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def same(self, o):
        return self.terms == o.terms

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const_value(self):
        return self.terms.get((), Fraction(0)) if self.is_const() else None

    def single_atom(self):
        """the atom a if the term is exactly a"""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def atom_ids(self):
        s = set()
        for m in self.terms:
            for i, _ in m:
                s.add(i)
        return s

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.add, self, o)
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        a, b = self.terms, o.terms
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return self if a is self.terms else o
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.subtract, self, o)
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.subtract, o, self)
        try:
            return Sym.of(o) - self
        except TypeError:
            return NotImplemented

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.multiply, self, o)
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        if not self.terms or not o.terms:
            return Sym({})
        a, b = self, o
        if len(b.terms) == 1 and () in b.terms:
            c = b.terms[()]
            if c == 1:
                return a
            return Sym({m: v * c for m, v in a.terms.items()})
        if len(a.terms) == 1 and () in a.terms:
            c = a.terms[()]
            if c == 1:
                return b
            return Sym({m: v * c for m, v in b.terms.items()})
        r = {}
        extras = None
        for m1, c1 in a.terms.items():
            for m2, c2 in b.terms.items():
                m, ex = _mono_mul(m1, m2)
                c = c1 * c2
                if ex is None:
                    v = r.get(m)
                    if v is None:
                        r[m] = c
                    else:
                        v = v + c
                        if v:
                            r[m] = v
                        else:
                            del r[m]
                else:
                    t = Sym({m: c}) * ex
                    extras = t if extras is None else extras + t
        s = Sym(r)
        return s if extras is None else s + extras

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.true_divide, self, o)
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        if not o.terms:
            raise ZeroDivisionError("symbolic division by the constant 0")
        if len(o.terms) == 1 and () in o.terms:
            c = o.terms[()]
            return Sym({m: v / c for m, v in self.terms.items()})
        if self.same(o):
            return ONE
        return self * recip(o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(np.true_divide, o, self)
        try:
            return Sym.of(o) / self
        except TypeError:
            return NotImplemented

    def __pow__(self, n):
        if isinstance(n, Sym):
            c = n.const_value()
            if c is None:
                return exp(n * log(self))
            n = c
        if isinstance(n, np.ndarray):
            return _arr(np.power, self, n)
        try:
            n = frac(n)
        except TypeError:
            return NotImplemented
        if n.denominator == 1:
            n = int(n)
            if n < 0:
                return recip(self) ** (-n)
            if n == 0:
                return ONE
            if len(self.terms) == 1 and n > 1:
                (m, c), = self.terms.items()
                mm, ex = _mono_norm({i: e * n for i, e in m})
                s = Sym({mm: c ** n})
                return s if ex is None else s * ex
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if n.denominator == 2:
            return sqrt(self) ** int(n * 2)
        return uf("pow", [self, Sym.const(n)])

    def __rpow__(self, b):
        if isinstance(b, np.ndarray):
            return _arr(np.power, b, self)
        return exp(self * log(Sym.of(b)))

    def __abs__(self):
        return absolute(self)

    def __float__(self):
        c = self.const_value()
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.const_value()
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = self.const_value()
        if c is None or c.denominator != 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        c = self.const_value()
        if c is None:
            raise Unsupported("round() of a symbolic value")
        return round(c) if n is None else Sym.const(round(c, n))

    def __floordiv__(self, o):
        q = (self / o).const_value()
        if q is None:
            raise Unsupported("floor division of symbolic values")
        return Sym.const(math.floor(q))

    def __ceil__(self):
        c = self.const_value()
        if c is None:
            raise Unsupported("ceil() of a symbolic value")
        return math.ceil(c)

    def __floor__(self):
        c = self.const_value()
        if c is None:
            raise Unsupported("floor() of a symbolic value")
        return math.floor(c)

    # numpy's object loops look these up
    def exp(self):
        return exp(self)

    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def square(self):
        return self * self

    def max(self):
        return self

    def min(self):
        return self

    def sum(self):
        return self

    def mean(self):
        return self

    def sin(self):
        return uf("sin", [self])

    def cos(self):
        return uf("cos", [self])

    def tanh(self):
        return uf("tanh", [self])

    def reshape(self, *shape):
        from .symarr import arr
        return arr(self).reshape(*shape)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    # ---- comparisons -> SymBool
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr({"le": np.less_equal, "lt": np.less, "ge": np.greater_equal, "gt": np.greater, "eq": np.equal, "ne": np.not_equal}[op], self, o)
        try:
            if isinstance(o, numbers.Real) and not isinstance(o, Sym) and math.isinf(float(o)):
                big = float(o) > 0
                return {"le": big, "lt": big, "ge": not big, "gt": not big, "eq": False, "ne": True}[op]
            o = Sym.of(o)
        except TypeError:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        d = self - o
        if op == "le":
            return mkbool("le", d)
        if op == "lt":
            return mkbool("lt", d)
        if op == "ge":
            return mkbool("le", -d)
        if op == "gt":
            return mkbool("lt", -d)
        if op == "eq":
            return mkbool("eq", d)
        return mknot(mkbool("eq", d))

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __repr__(self):
        if not self.terms:
            return "0"
        parts = []
        for m, c in sorted(self.terms.items())[:12]:
            s = "*".join(ATOMS[i].name + ("" if e == 1 else "^%d" % e) for i, e in m)
            cs = str(c)
            parts.append(cs if not s else (s if c == 1 else cs + "*" + s))
        if len(self.terms) > 12:
            parts.append("...(%d terms)" % len(self.terms))
        return " + ".join(parts)


def _arr(ufunc, a, b):
    from .symarr import arr
    return ufunc(arr(a) if isinstance(a, Sym) else a, arr(b) if isinstance(b, Sym) else b)


# hashing by value needs __eq__ to answer plainly: wrap
class K:
    """hashable wrapper comparing terms structurally"""
    __slots__ = ("s", "h")

    def __init__(self, s):
        self.s = s
        self.h = hash(s)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, K) and self.h == o.h and self.s.terms == o.s.terms


def _atom_of(kind, syms, extra=(), name=None, info=None, data=None):
    key = (kind, extra, tuple(K(s) for s in syms))
    a = _INTERN.get(key)
    if a is None:
        a = Atom(kind, data if data is not None else tuple(syms), name or "%s_%d" % (kind, len(ATOMS)), info)
        _INTERN[key] = a
    return a


# exp atoms go through `atom("exp", Sym)`: key contains a Sym, so wrap it
def atom(kind, data, name=None, info=None):  # noqa: F811
    if isinstance(data, Sym):
        return _atom_of(kind, [data], (), name, info, data)
    key = (kind, data)
    a = _INTERN.get(key)
    if a is None:
        a = Atom(kind, data, name or "%s_%d" % (kind, len(ATOMS)), info)
        _INTERN[key] = a
    return a


ZERO = Sym({})
ONE = Sym({(): Fraction(1)})


def var(name, info=None):
    return Sym.atom(atom("var", name, name, info))


def uf(fname, args, extra=(), info=None):
    args = [Sym.of(a) for a in args]
    return Sym.atom(_atom_of("uf", args, (fname,) + tuple(extra), None, info, (fname, tuple(extra), tuple(args))))


def define(p):
    """a name for a stored value (definitional extension)"""
    p = Sym.of(p)
    if len(p.terms) <= 1:
        if not p.terms or p.is_const() or p.single_atom() is not None:
            return p
    return Sym.atom(atom("def", p))


def _content(p):
    """leading coefficient and common monomial"""
    items = p.key
    lead = items[0][1]
    common = None
    for m, _ in items:
        d = {i: e for i, e in m if ATOMS[i].kind in ("var", "uf", "def", "recip", "inv")}
        if common is None:
            common = d
        else:
            common = {i: min(e, d.get(i, 0)) for i, e in common.items() if i in d and (e > 0) == (d[i] > 0)}
        if not common:
            break
    common = tuple(sorted((i, e) for i, e in (common or {}).items() if e))
    return lead, common


def recip(p):
    p = Sym.of(p)
    if not p.terms:
        raise ZeroDivisionError("symbolic division by the constant 0")
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        mm, ex = _mono_norm({i: -e for i, e in m})
        s = Sym({mm: 1 / c})
        return s if ex is None else s * ex
    lead, common = _content(p)
    if common:
        q = Sym({tuple(sorted(m)): c for m, c in p.terms.items()}) * Sym({tuple((i, -e) for i, e in common): Fraction(1)})
        return recip(Sym({common: Fraction(1)})) * recip(q)
    q = Sym({m: c / lead for m, c in p.terms.items()})
    return Sym.atom(atom("recip", q)) * Sym.const(1 / lead)


def exp(p):
    p = Sym.of(p)
    if not p.terms:
        return ONE
    return Sym.atom(atom("exp", p))


def log(p):
    p = Sym.of(p)
    if p.same(ONE):
        return ZERO
    a = p.single_atom()
    if a is not None and a.kind == "exp":
        return a.data
    return uf("log", [p])


def _sqrt_int(n):
    """n = s*s*f, f squarefree (trial division)"""
    s, f, d = 1, 1, 2
    while d * d <= n and d < 100000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        f *= d ** (e % 2)
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, f
    return s, f * n


def sqrt(p):
    if isinstance(p, (int, float)) and not isinstance(p, bool):
        p = Sym.const(p)
    p = Sym.of(p)
    if not p.terms:
        return ZERO
    c = p.const_value()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        s, f = _sqrt_int(c.numerator * c.denominator)
        r = Sym.const(Fraction(s, c.denominator))
        return r if f == 1 else r * Sym.atom(atom("sqrt", Sym.const(f)))
    if len(p.terms) == 1:
        (m, cc), = p.terms.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind == "exp" and cc > 0:
            return exp(ATOMS[m[0][0]].data / 2) * sqrt(Sym.const(cc))
    # positive rational content
    den = 1
    num = 0
    for cc in p.terms.values():
        den = den * cc.denominator // math.gcd(den, cc.denominator)
    for cc in p.terms.values():
        num = math.gcd(num, abs(int(cc * den)))
    cont = Fraction(num, den)
    q = Sym({m: cc / cont for m, cc in p.terms.items()})
    # q may be a perfect square of a positive atom: left to the solver
    return sqrt(Sym.const(cont)) * Sym.atom(atom("sqrt", q)) if cont != 1 else Sym.atom(atom("sqrt", q))


def absolute(p):
    p = Sym.of(p)
    c = p.const_value()
    if c is not None:
        return Sym.const(abs(c))
    a = p.single_atom()
    if a is not None and (a.kind in ("exp", "sqrt", "abs") or (a.info or {}).get("pos")):
        return p
    if p.key[0][1] < 0:
        p = -p
    return Sym.atom(atom("abs", p))


def _minmax(kind, xs):
    flat = []
    for x in xs:
        x = Sym.of(x)
        a = x.single_atom()
        if a is not None and a.kind == kind:
            flat.extend(a.data)
        else:
            flat.append(x)
    uniq = {}
    for x in flat:
        uniq.setdefault(K(x), x)
    vals = list(uniq.values())
    consts = [x for x in vals if x.is_const()]
    if len(consts) > 1:
        f = min if kind == "min" else max
        best = f(c.const_value() for c in consts)
        vals = [x for x in vals if not x.is_const()] + [Sym.const(best)]
    if len(vals) == 1:
        return vals[0]
    vals.sort(key=lambda s: s.key)
    # a common additive shift is not pulled out: the solver decides such cases
    return Sym.atom(_atom_of(kind, vals))


def minimum(*xs):
    return _minmax("min", xs)


def maximum(*xs):
    return _minmax("max", xs)


# ---------------------------------------------------------------- booleans
class SymBool:
    """('le'|'lt'|'eq', Sym) meaning p<=0, p<0, p==0, or ('and'|'or', [..]), ('not', b)"""
    __slots__ = ("op", "arg")

    def __init__(self, op, arg):
        self.op = op
        self.arg = arg

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return mknot(self)

    def __xor__(self, o):
        return mkor(mkand(self, mknot(o)), mkand(mknot(self), o))

    def __bool__(self):
        from . import smt
        return smt.CTX.decide(self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkand(self, o)
        return ite(self, 1, 0) * o

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return ite(self, 1, 0) + (ite(o, 1, 0) if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return ite(self, 1, 0) - o

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else mknot(self)
        if isinstance(o, SymBool):
            return mkor(mkand(self, o), mkand(mknot(self), mknot(o)))
        return ite(self, 1, 0) == o

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = None

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return "(%s %r)" % (self.op, self.arg)


def mkbool(op, d):
    c = d.const_value()
    if c is not None:
        return {"le": c <= 0, "lt": c < 0, "eq": c == 0}[op]
    if op == "eq" and d.key[0][1] < 0:
        d = -d
    return SymBool(op, d)


def mknot(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == "not":
        return b.arg
    if b.op == "le":
        return SymBool("lt", -b.arg)
    if b.op == "lt":
        return SymBool("le", -b.arg)
    return SymBool("not", b)


def _flat(op, bs):
    out = []
    for b in bs:
        if isinstance(b, (Sym,)):
            b = b != 0
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(b, (int, float, np.bool_)) and not isinstance(b, bool):
            b = bool(b)
        if isinstance(b, bool):
            if b == (op == "or"):
                return b
            continue
        if b.op == op:
            out.extend(b.arg)
        else:
            out.append(b)
    if not out:
        return op == "and"
    if len(out) == 1:
        return out[0]
    return SymBool(op, out)


def mkand(*bs):
    return _flat("and", bs)


def mkor(*bs):
    return _flat("or", bs)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return Sym.of(a) if c else Sym.of(b)
    a, b = Sym.of(a), Sym.of(b)
    if a.same(b):
        return a
    return Sym.atom(_atom_of("ite", [a, b], (repr_bool(c),), None, None, (c, a, b)))


def repr_bool(b):
    if isinstance(b, bool):
        return b
    if b.op in ("le", "lt", "eq"):
        return (b.op, K(b.arg))
    if b.op == "not":
        return ("not", repr_bool(b.arg))
    return (b.op, tuple(repr_bool(x) for x in b.arg))


# ---------------------------------------------------------------- substitution / expansion
def map_atoms(p, fn):
    """replace top-level atoms: fn(atom) -> Sym or None (keep)"""
    r = ZERO
    rep = {}
    for i in p.atom_ids():
        v = fn(ATOMS[i])
        if v is not None:
            rep[i] = v
    if not rep:
        return p
    keep = {}
    groups = {}
    for m, c in p.terms.items():
        k = tuple((i, e) for i, e in m if i in rep)
        if not k:
            keep[m] = c
            continue
        groups.setdefault(k, {})[tuple((i, e) for i, e in m if i not in rep)] = c
    for k, g in groups.items():
        f = ONE
        for i, e in k:
            f = f * rep[i] ** e
        _into(keep, Sym(g) * f)
    return Sym(keep)


def expand_defs_once(p):
    """expand the newest def atom occurring at top level"""
    best = None
    for i in p.atom_ids():
        if ATOMS[i].kind == "def" and (best is None or i > best):
            best = i
    if best is None:
        return None
    return map_atoms(p, lambda a: a.data if a.id == best else None)


def expand_defs_newest(p):
    return expand_defs_once(p)


def rewrite_deep(p, leaf, memo):
    """rebuild a term bottom-up; leaf(atom) -> Sym or None"""
    k = K(p)
    if k in memo:
        return memo[k]

    def one(a):
        v = leaf(a)
        if v is not None:
            return v
        if a.kind in ("var",):
            return None
        if a.kind == "def":
            return rewrite_deep(a.data, leaf, memo)
        if a.kind == "uf":
            f, ex, args = a.data
            return uf(f, [rewrite_deep(x, leaf, memo) for x in args], ex, a.info)
        if a.kind == "exp":
            return exp(rewrite_deep(a.data, leaf, memo))
        if a.kind == "sqrt":
            return sqrt(rewrite_deep(a.data, leaf, memo))
        if a.kind == "recip":
            return recip(rewrite_deep(a.data, leaf, memo))
        if a.kind == "abs":
            return absolute(rewrite_deep(a.data, leaf, memo))
        if a.kind in ("min", "max"):
            return _minmax(a.kind, [rewrite_deep(x, leaf, memo) for x in a.data])
        return None

    r = map_atoms(p, one)
    memo[k] = r
    return r


def _into(r, t):
    """add term t into the dict r"""
    for m, c in t.terms.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]


def clear_denominators(p, limit=12, cap=20000):
    """multiply a term by the denominators in it (they are non-zero): same zero set.  Stops early, with denominators
    left, when the result would have more than cap terms."""
    for _ in range(limit):
        ids = [i for i in p.atom_ids() if ATOMS[i].kind == "recip"]
        if not ids:
            return p
        i = max(ids)
        q = ATOMS[i].data
        parts = {}
        for m, c in p.terms.items():
            e, rest = 0, m
            for n, (j, x) in enumerate(m):
                if j == i:
                    e, rest = x, m[:n] + m[n + 1:]
                    break
            parts.setdefault(e, {})[rest] = c
        top = max(parts)
        if sum(len(t) * len(q.terms) ** (top - e) for e, t in parts.items()) > cap:
            return p
        r = {}
        for e in sorted(parts):
            _into(r, Sym(parts[e]) * q ** (top - e))
        p = Sym(r)
        if not p.terms:
            return p
    return p
