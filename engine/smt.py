"""Path conditions, evaluation of terms at sample points, and the SMT solver."""
import math
import random
import time

import numpy as np
import z3

from . import poly, values
from .poly import ATOMS, K, Sym, SymBool, Unsupported, mkand, mknot, repr_bool

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "normal_form": 0, "obligations": 0,
         "max_query_s": 0.0}

UF_EVAL = {
    "sin": lambda ex, a: math.sin(a[0]),
    "cos": lambda ex, a: math.cos(a[0]),
    "tanh": lambda ex, a: math.tanh(a[0]),
    "log": lambda ex, a: math.log(a[0]) if a[0] > 0 else float("nan"),
    "pow": lambda ex, a: a[0] ** a[1],
    "round32": lambda ex, a: float(np.float32(a[0])),
    "floor": lambda ex, a: float(math.floor(a[0])),
}


class Budget(Exception):
    pass


class Ctx:
    def __init__(self):
        self.pc = []           # conditions on this path (branches taken)
        self.assumed = []      # harness assumptions
        self.trace = []        # decided conditions in order: (cond, value)
        self.known = {}
        self.script = {}
        self.val = None
        self.max_decisions = 200000

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise Unsupported("assumption is false")
            return
        self.assumed.append(b)
        self.known[repr_bool(b)] = True
        self.known[repr_bool(mknot(b))] = False

    def decide(self, b):
        k = repr_bool(b)
        v = self.known.get(k)
        if v is not None:
            return v
        i = len(self.trace)
        if i >= self.max_decisions:
            raise Budget("too many symbolic branches")
        if i in self.script:
            v = self.script[i]
        elif self.val is None:
            raise Unsupported("branch on a symbolic value outside a path exploration: %r" % (b,))
        else:
            v = self.val.cond(b)
        v = bool(v)
        self.trace.append((b, v))
        self.known[k] = v
        self.known[repr_bool(mknot(b))] = not v
        self.pc.append(b if v else mknot(b))
        return v

    def conditions(self):
        return self.assumed + self.pc


CTX = Ctx()


# ---------------------------------------------------------------- sample evaluation
class Valuation:
    """Evaluates terms at one concrete point.  Inputs and draws get pseudo-random values from (seed, name), or the
    values in `over` (name -> value); functions are evaluated by the functions registered for them."""

    def __init__(self, seed=0, over=None):
        self.seed = seed
        self.over = over or {}
        self.memo = {}
        self.full = {}
        self.fmemo = {}

    def _var(self, a):
        if a.name in self.over:
            return self.over[a.name]
        info = a.info or {}
        if "eval" in info:
            return info["eval"](self)
        return values.value(self.seed, a.name, info.get("kind", "real"), info)

    def _deps(self, a):
        k, d = a.kind, a.data
        if k in ("exp", "sqrt", "recip", "abs", "def"):
            return (d,)
        if k in ("min", "max"):
            return d
        if k == "uf":
            return d[2]
        if k == "ite":
            return tuple(_bool_terms(d[0])) + (d[1], d[2])
        if k == "inv":
            return d[0].deps()
        return (a.info or {}).get("deps", ())

    def _calc(self, a):
        k, d = a.kind, a.data
        T = self._poly
        if k == "var":
            return self._var(a)
        if a.name in self.over:
            return self.over[a.name]
        if k == "def":
            return T(d)
        if k == "exp":
            v = T(d)
            return math.exp(v) if v < 700 else float("inf")
        if k == "sqrt":
            v = T(d)
            return math.sqrt(v) if v >= 0 else (0.0 if v > -1e-12 else float("nan"))
        if k == "recip":
            v = T(d)
            return 1.0 / v if v else float("inf")
        if k == "abs":
            return abs(T(d))
        if k == "min":
            return min(T(x) for x in d)
        if k == "max":
            return max(T(x) for x in d)
        if k == "uf":
            f, ex, args = d
            ev = (a.info or {}).get("eval")
            if ev is not None:
                return ev(self)
            fn = UF_EVAL.get(f)
            if fn is None:
                return random.Random("%s:%s:%r" % (self.seed, f, [round(T(x), 9) for x in args])).gauss(0, 1)
            values.profile(self.seed)
            return fn(ex, [T(x) for x in args])
        if k == "ite":
            return T(d[1]) if self._cond(d[0]) else T(d[2])
        if k == "inv":
            rec, i, j = d
            return rec.numeric(self)[i][j]
        raise Unsupported("cannot evaluate atom kind %s" % k)

    def _poly(self, p):
        s = 0.0
        for m, c in p.terms.items():
            t = float(c)
            for i, e in m:
                v = self.memo[i]
                try:
                    t *= v if e == 1 else v ** e
                except ZeroDivisionError:
                    t = float("nan")
                except OverflowError:
                    t = float("inf")
            s += t
        return s

    def term(self, p):
        self.ensure(p)
        return self._poly(p)

    def ensure(self, *ps):
        memo = self.memo
        stack = [i for p in ps for i in p.atom_ids() if i not in memo]
        while stack:
            i = stack[-1]
            if i in memo:
                stack.pop()
                continue
            a = ATOMS[i]
            ids = a.info.get("ids") if a.info else None
            if ids is None:
                need = [j for q in self._deps(a) for j in q.atom_ids() if j not in memo]
            elif id(ids) in self.full:
                need = ()
            else:
                need = [j for j in ids if j not in memo]
                if not need:
                    self.full[id(ids)] = ids
            if need:
                stack.extend(need)
                continue
            memo[i] = self._calc(a)
            stack.pop()

    def _cond(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        o = b.op
        if o == "le":
            return self._poly(b.arg) <= 0
        if o == "lt":
            return self._poly(b.arg) < 0
        if o == "eq":
            return self._poly(b.arg) == 0
        if o == "and":
            return all(self._cond(x) for x in b.arg)
        if o == "or":
            return any(self._cond(x) for x in b.arg)
        if o == "not":
            return not self._cond(b.arg)
        raise Unsupported("cond %s" % o)

    def cond(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        self.ensure(*_bool_terms(b))
        return self._cond(b)

    def sure(self, b):
        """truth of b at this point: True, False, or None where rounding of the evaluation could decide it"""
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        self.ensure(*_bool_terms(b))
        return self._sure(b)

    def _sure(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        o = b.op
        if o in ("le", "lt", "eq"):
            v = self._poly(b.arg)
            if not math.isfinite(v):
                return None
            mag = sum(abs(self._poly(Sym({m: c}))) for m, c in b.arg.terms.items())
            if abs(v) <= 1e-9 * mag and b.arg.atom_ids():
                ms = list(b.arg.terms.items())
                exact = v == 0 and len(ms) <= 2 and all(len(m) == 1 and m[0][1] == 1 and abs(c) == 1 for m, c in ms)
                if not exact:
                    return None
            return v <= 0 if o == "le" else v < 0 if o == "lt" else v == 0
        if o == "not":
            r = self._sure(b.arg)
            return None if r is None else not r
        rs = [self._sure(x) for x in b.arg]
        if o == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False

    def array(self, a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=float)
        for i, x in np.ndenumerate(a):
            out[i] = self.term(Sym.of(x))
        return out


def _bool_terms(b):
    if isinstance(b, (bool, np.bool_)):
        return []
    if b.op in ("le", "lt", "eq"):
        return [b.arg]
    if b.op == "not":
        return _bool_terms(b.arg)
    r = []
    for x in b.arg:
        r.extend(_bool_terms(x))
    return r


# ---------------------------------------------------------------- translation to z3
class Enc:
    """Translates terms to z3; atoms become real constants constrained by what they stand for."""

    def __init__(self, defs=False, max_defs=400, only=None, lean=False):
        self.only = only       # the stored values whose definitions count (None: all)
        self.lean = lean       # only the facts an equality of normal forms rests on
        self.vars = {}
        self.axioms = []
        self.defs = defs
        self.ndefs = 0
        self.max_defs = max_defs
        self.partial = False   # some facts about exponentials were left out

    def v(self, i):
        x = self.vars.get(i)
        if x is not None:
            return x
        a = ATOMS[i]
        x = z3.Real("a%d" % i)
        self.vars[i] = x
        ax = self.axioms
        k = a.kind
        if k == "var":
            info = a.info or {}
            kd = info.get("kind")
            if kd == "uniform":
                ax.append(z3.And(x >= 0, x < 1))
            elif kd == "pos":
                ax.append(x > 0)
            elif kd == "nonneg":
                ax.append(x >= 0)
            elif kd == "range":
                lo, hi = info["range"]
                ax.append(z3.And(x >= z3.RealVal(repr(lo)), x <= z3.RealVal(repr(hi))))
            elif kd == "small":
                ax.append(z3.And(x >= z3.RealVal(str(-info["bound"])), x <= z3.RealVal(str(info["bound"]))))
        elif self.lean and k != "recip" and (k != "def" or self.only is None or i not in self.only):
            pass
        elif k == "exp":
            ax.append(x > 0)
            # monotone around 0
            d = self.t(a.data)
            ax.append(z3.And(x >= 1 + d, (x <= 1) == (d <= 0)))
        elif k == "sqrt":
            ax.append(x >= 0)
            ax.append(x * x == self.t(a.data))
        elif k == "recip":
            ax.append(x * self.t(a.data) == 1)
        elif k == "abs":
            d = self.t(a.data)
            ax.append(x == z3.If(d >= 0, d, -d))
        elif k in ("min", "max"):
            ds = [self.t(q) for q in a.data]
            for d in ds:
                ax.append(x <= d if k == "min" else x >= d)
            ax.append(z3.Or([x == d for d in ds]))
        elif k == "ite":
            c, p, q = a.data
            ax.append(x == z3.If(self.b(c), self.t(p), self.t(q)))
        elif k == "def":
            if self.defs and self.ndefs < self.max_defs:
                self.ndefs += 1
                ax.append(x == self.t(a.data))
        elif k == "uf":
            f = a.data[0]
            if f == "round32":
                pass
            if f in ("sin", "cos", "tanh"):
                ax.append(z3.And(x >= -1, x <= 1))
        return x

    def t(self, p):
        ts = []
        for m, c in p.terms.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)))
            for i, e in m:
                x = self.v(i)
                if e > 0:
                    fs.extend([x] * e)
                else:
                    y = self.inverse(i)
                    fs.extend([y] * (-e))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def products(self, most=250):
        """exp(a) exp(b) = exp(a+b) for the exponentials that occur"""
        out, seen = [], set()
        for _ in range(3):
            es = [i for i in self.vars if isinstance(i, int) and ATOMS[i].kind == "exp"]
            at = {K(ATOMS[i].data): i for i in es}
            if len(es) > most:
                self.partial = True
                return out
            for n, i in enumerate(es):
                for j in es[n:]:
                    if (i, j) in seen:
                        continue
                    s = ATOMS[i].data + ATOMS[j].data
                    c = at.get(K(s))
                    if c is not None or not s.terms:
                        seen.add((i, j))
                        out.append(self.v(i) * self.v(j) == (self.v(c) if s.terms else 1))
            break
        return out

    def inverse(self, i):
        k = ("inv", i)
        y = self.vars.get(k)
        if y is None:
            x = self.v(i)
            y = z3.Real("i%d" % i)
            self.vars[k] = y
            self.axioms.append(x * y == 1)
        return y

    def b(self, b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        o = b.op
        if o == "le":
            return self.t(b.arg) <= 0
        if o == "lt":
            return self.t(b.arg) < 0
        if o == "eq":
            return self.t(b.arg) == 0
        if o == "and":
            return z3.And([self.b(x) for x in b.arg])
        if o == "or":
            return z3.Or([self.b(x) for x in b.arg])
        if o == "not":
            return z3.Not(self.b(b.arg))
        raise Unsupported("bool %s" % o)


def check(conds, timeout_s=10.0, defs=False, want_model=False):
    """satisfiability of the conjunction -> ('unsat'|'sat'|'unknown', {atom id: value})"""
    e = Enc(defs=defs)
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    fs = [e.b(c) for c in conds]
    # axioms can be appended while translating; translate first, add after
    for f in fs:
        s.add(f)
    for f in e.axioms:
        s.add(f)
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["solver_s"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    r = str(r)
    STATS[r] += 1
    model = None
    if r == "sat" and want_model:
        m = s.model()
        model = {}
        for i, x in e.vars.items():
            if isinstance(i, tuple):
                continue
            v = m.eval(x, model_completion=True)
            model[i] = _num(v)
    return r, model


def _num(v):
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) if abs(v.denominator_as_long()) < 10 ** 300 else float(v.as_fraction())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(a.as_fraction())
    return 0.0


def batch_equal(pairs, conds=(), timeout_s=60.0):
    """one query: can any lhs differ from its rhs?  -> 'unsat' (all equal) | 'sat' | 'unknown'"""
    e = Enc()
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    ds = []
    for a, b in pairs:
        ds.append(e.t(Sym.of(a)) != e.t(Sym.of(b)))
    s.add(z3.Or(ds) if len(ds) > 1 else ds[0])
    for c in conds:
        s.add(e.b(c))
    for f in e.axioms:
        s.add(f)
    t0 = time.time()
    r = str(s.check())
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["solver_s"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    return r


# ---------------------------------------------------------------- proving
class Verdict:
    def __init__(self, status, how="", model=None, goal=None):
        self.status = status      # proved | refuted | unknown
        self.how = how
        self.model = model
        self.goal = goal

    def __repr__(self):
        return "<%s %s>" % (self.status, self.how)


def numeric_state(d, vals, rel=1e-10):
    """('zero' | 'nonzero' | 'nan', valuation at which it is clearly nonzero)"""
    seen = False
    for v in vals:
        try:
            v.ensure(d)
            s, mag = 0.0, 0.0
            for m, c in d.terms.items():
                t = v._poly(Sym({m: c}))
                s += t
                mag += abs(t)
        except (OverflowError, ValueError, ZeroDivisionError, ArithmeticError):
            continue
        if not math.isfinite(s):
            continue
        seen = True
        if abs(s) > rel * mag + 1e-300:
            return "nonzero", v
    return ("zero" if seen else "nan"), None


def _below(a):
    k, d = a.kind, a.data
    if k in ("exp", "sqrt", "recip", "abs", "def"):
        return (d,)
    if k in ("min", "max"):
        return d
    if k == "uf":
        return d[2]
    if k == "ite":
        return tuple(_bool_terms(d[0])) + (d[1], d[2])
    if k == "inv":
        return tuple(d[0].deps())
    return (a.info or {}).get("deps", ())


def reach(p, most=4000):
    """ids of the atoms a term is made of, however deep"""
    seen, todo = set(), list(p.atom_ids())
    while todo and len(seen) < most:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            ids = (ATOMS[i].info or {}).get("ids")
            if ids is not None:
                todo.extend(ids - seen)
                continue
            for q in _below(ATOMS[i]):
                todo.extend(j for j in q.atom_ids() if j not in seen)
    return seen


def piecewise(p):
    return sorted(i for i in reach(p) if ATOMS[i].kind in ("min", "max", "abs", "ite"))


def cases(a):
    """the conditions of the cases of a piecewise atom"""
    d = a.data
    if a.kind == "abs":
        return [poly.mkbool("lt", d), poly.mkbool("lt", -d)]
    if a.kind == "ite":
        return [d[0], mknot(d[0])]
    out = []
    if len(d) > 6:
        return out
    for x in d:
        c = [poly.mkbool("lt", (x - y) if a.kind == "min" else (y - x)) for y in d if y is not x]
        out.append(mkand(*c) if len(c) > 1 else c[0])
    return out


def weight(p):
    """size of the formula a term is translated to"""
    n, seen = 0, set()
    todo = [p]
    while todo and n < 20000:
        q = todo.pop()
        n += sum(1 + len(m) for m in q.terms)
        for i in q.atom_ids():
            if i not in seen:
                seen.add(i)
                if ATOMS[i].kind not in ("uf", "inv", "var"):
                    todo.extend(_below(ATOMS[i]))
    return n


class Prover:
    """Decides goals on one path."""

    def __init__(self, vals, timeout_s=20.0, expand=1500, size=60000, deadline=None):
        self.vals = vals
        self.deadline = deadline
        self.timeout = timeout_s
        self.expand = expand
        self.size = size
        self.rep = {}            # atom id -> Sym: atoms proved equal to others
        self.equal_memo = {}
        self.memo_case = {}
        self.trail = set()       # stored values expanded and atoms identified for the goal at hand
        self.trails = {}
        self.done = []           # (lhs, rhs) proved by normal form, to be confirmed by the solver in bulk
        self.probes = [Valuation("probe1"), Valuation("probe2")]   # identities hold off the path as well

    # ---- equality
    def zero(self, d):
        return numeric_state(d, self.vals)

    def not_identical(self, d):
        return numeric_state(d, self.vals)[0] == "nonzero" or numeric_state(d, self.probes)[0] == "nonzero"

    def _apply_rep(self, d):
        if not self.rep:
            return d
        for _ in range(20):
            hit = [i for i in d.atom_ids() if i in self.rep]
            if not hit:
                break
            self.trail.update(hit)
            d = poly.map_atoms(d, lambda a: self.rep.get(a.id))
        return d

    def same(self, a, b, depth=0):
        """a == b on this path by normal forms (True), or not shown (False)"""
        d = Sym.of(a) - Sym.of(b)
        return self._zero_term(d, depth)

    def _zero_term(self, d, depth=0):
        if not d.terms:
            return True
        k = K(d)
        r = self.equal_memo.get(k)
        if r is not None:
            return r
        if self.not_identical(d):
            self.equal_memo[k] = False
            return False
        if depth > 6:
            return False
        self.equal_memo[k] = False
        r = self._zero_nf(d, depth)
        self.equal_memo[k] = r
        return r

    def _quick_nf(self, d):
        """newest stored values expanded, denominators cleared, nothing identified"""
        cur = self._apply_rep(d)
        for _ in range(12):
            if len(cur.terms) > 120:
                return False
            c = poly.clear_denominators(cur, 4, cap=1500)
            if not c.terms:
                return True
            if not any(ATOMS[i].kind == "def" for i in cur.atom_ids()):
                return False
            cur = self._apply_rep(self._expand(cur))
        return not cur.terms

    def _expand(self, p):
        self.trail.add(max(i for i in p.atom_ids() if ATOMS[i].kind == "def"))
        return poly.expand_defs_once(p)

    def _zero_nf(self, d, depth):
        if self._quick_nf(d):
            return True
        cur = self._apply_rep(d)
        end = time.time() + 20
        for _ in range(self.expand):
            if not cur.terms:
                return True
            if time.time() > end:
                break
            if self._tiny(cur):
                return True
            if len(cur.terms) > self.size:
                break
            if len(cur.terms) < 400:
                c = poly.clear_denominators(cur, 4)
                if not c.terms:
                    return True
            if any(ATOMS[i].kind == "def" for i in cur.atom_ids()):
                c = self._merge(cur, depth)
                if c is not None:
                    cur = c
                    continue
                cur = self._apply_rep(self._expand(cur))
                continue
            c = self._merge(cur, depth)
            if c is not None:
                cur = c
                continue
            break
        if not cur.terms or self._tiny(cur):
            return True
        if len(cur.terms) < 4000:
            c = poly.clear_denominators(cur)
            for _ in range(6):
                if not c.terms or self._tiny(c):
                    return True
                m = self._merge(c, depth)
                if m is None:
                    break
                c = poly.clear_denominators(m)
        return False

    def _tiny(self, p):
        """what is left are rounding errors of decimal constants"""
        return False

    def _merge(self, d, depth):
        """identify two atoms of d that are applications of the same function to provably equal arguments"""
        groups = {}
        for i in d.atom_ids():
            a = ATOMS[i]
            if a.kind in ("uf", "exp", "sqrt", "recip", "abs", "min", "max", "def", "inv", "ite") or (a.kind == "var" and a.info and a.info.get("plan")):
                try:
                    self.vals[0].ensure(Sym.atom(a))
                    v = self.vals[0].memo[i]
                except (IndexError, ArithmeticError, ValueError):
                    continue
                if not math.isfinite(v):
                    continue
                groups.setdefault(a.kind if a.kind != "uf" else (a.data[0], a.data[1]), []).append((v, i))
        for g in groups.values():
            if len(g) < 2:
                continue
            g.sort()
            for (v1, i), (v2, j) in zip(g, g[1:]):
                if abs(v1 - v2) <= 1e-9 * (abs(v1) + abs(v2)) + 1e-300 and \
                        not self.not_identical(Sym.atom(ATOMS[i]) - Sym.atom(ATOMS[j])) and self._same_atoms(i, j, depth + 1):
                    lo, hi = min(i, j), max(i, j)
                    self.rep[hi] = Sym.atom(ATOMS[lo])
                    return self._apply_rep(d)
        return None

    def _same_atoms(self, i, j, depth):
        a, b = ATOMS[i], ATOMS[j]
        k = a.kind
        if k in ("exp", "sqrt", "recip", "abs", "def"):
            return self._zero_term(a.data - b.data, depth)
        if k in ("min", "max"):
            return self._same_sets(a.data, b.data, depth)
        if k == "uf":
            return len(a.data[2]) == len(b.data[2]) and all(self._zero_term(x - y, depth) for x, y in zip(a.data[2], b.data[2]))
        if k == "inv":
            r, s = a.data[0], b.data[0]
            if r.n != s.n:
                return False
            if (a.data[1], a.data[2]) != (b.data[1], b.data[2]) and not (r.sym and (a.data[1], a.data[2]) == (b.data[2], b.data[1])):
                return False
            return all(self._zero_term(x - y, depth) for x, y in zip(r.deps(), s.deps()))
        if k == "ite":
            return False
        if k == "var":
            return a.info.get("plan") == b.info.get("plan") and len(a.info["deps"]) == len(b.info["deps"]) and \
                all(self._zero_term(x - y, depth) for x, y in zip(a.info["deps"], b.info["deps"]))
        return False

    def _same_sets(self, xs, ys, depth):
        if len(xs) != len(ys):
            return False
        ys = list(ys)
        for x in xs:
            for n, y in enumerate(ys):
                if self._zero_term(x - y, depth):
                    del ys[n]
                    break
            else:
                return False
        return True

    def eq(self, a, b):
        STATS["obligations"] += 1
        a, b = Sym.of(a), Sym.of(b)
        d = a - b
        if not d.terms:
            STATS["normal_form"] += 1
            self.done.append((a, b, frozenset()))
            return Verdict("proved", "identical normal forms")
        st, bad = self.zero(d)
        if st == "nonzero" and self.on_path(bad):
            return Verdict("refuted", "differs at a point of this path", bad, (a, b))
        self.trail = set()
        good = self._zero_term(d)
        key = K(d)
        if good:
            used = self.trails.setdefault(key, frozenset(self.trail)) if self.trail else self.trails.get(key, frozenset())
            STATS["normal_form"] += 1
            self.done.append((a, b, used))
            return Verdict("proved", "normal form")
        r = self._apply_rep(d)
        v = self._cases(r)
        if v is not None:
            return Verdict("refuted", "differs in another case of a minimum, maximum or choice", v, (a, b))
        if self.late():
            return Verdict("unknown", "no time left", None, (a, b))
        neg = mknot(poly.mkbool("eq", r))
        conds = CTX.conditions()
        st, model = "unknown", None
        if weight(r) < 4000:
            st, model = check(conds + [neg], self.timeout, defs=True, want_model=True)
            if st == "unsat":
                return Verdict("proved", "solver")
            r2 = poly.clear_denominators(r, cap=3000) if len(r.terms) < 3000 else r
            if r2 is not r and weight(r2) < 4000:
                st2, model2 = check(conds + [mknot(poly.mkbool("eq", r2))], self.timeout, want_model=True)
                if st2 == "unsat":
                    return Verdict("proved", "solver, denominators cleared")
        if st == "sat":
            return Verdict("refuted", "solver model", model, (a, b))
        return Verdict("unknown", "solver gave up", None, (a, b))

    def on_path(self, v):
        """a path forced by the solver may be followed with sample values that do not take it"""
        if not CTX.script or not isinstance(v, Valuation):
            return True
        try:
            return all(v.cond(c) for c in CTX.conditions())
        except (ArithmeticError, ValueError, KeyError):
            return False

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def _cases(self, d, most=24, budget=8.0):
        """d is zero at the sample; a point of this path at which it is not, in another case of one of the piecewise
        quantities d is made of (a solver model of that case, completed by sample values of several scales)"""
        end = time.time() + budget
        conds = CTX.conditions()
        v0 = self.vals[0]
        n = 0
        for i in piecewise(d):
            a = ATOMS[i]
            for case in cases(a):
                if n >= most or time.time() > end:
                    return None
                if isinstance(case, bool) or self.memo_case.get(repr_bool(case)) == "unsat":
                    continue
                try:
                    if v0.cond(case):
                        continue
                except (ArithmeticError, ValueError):
                    continue
                n += 1
                key = repr_bool(case)
                pts = self.memo_case.get(key)
                if pts is None:
                    pts = self.memo_case[key] = self._case_points(case, conds)
                if pts == "unsat":
                    continue
                for v in pts:
                    if numeric_state(d, [v], 1e-7)[0] == "nonzero":
                        return v
        return None

    def _case_points(self, case, conds):
        from .explore import input_model
        pts = []
        seeds = [self.vals[0].seed] + ["7:" + r for r in values.REGIMES]
        st, model = check([case], 2.0, want_model=True)
        if st == "unsat":
            return "unsat"
        overs = [None] + ([input_model(model)] if model else [])
        for over in overs:
            for s in seeds:
                v = Valuation(s, over)
                try:
                    if v.cond(case) and all(v.cond(c) for c in conds):
                        pts.append(v)
                except (ArithmeticError, ValueError, KeyError):
                    continue
        if not pts:
            st, model = check(conds + [case], 3.0, want_model=True)
            if st == "unsat":
                return "unsat"
            if model:
                v = Valuation(self.vals[0].seed, input_model(model))
                try:
                    if v.cond(case) and all(v.cond(c) for c in conds):
                        pts.append(v)
                except (ArithmeticError, ValueError, KeyError):
                    pass
        return pts[:6]

    # ---- other goals
    def holds(self, goal):
        """conditions of this path |= goal"""
        STATS["obligations"] += 1
        if isinstance(goal, (bool, np.bool_)):
            if goal:
                STATS["normal_form"] += 1
                return Verdict("proved", "constant")
            return Verdict("refuted", "constant false", self.vals[0] if self.vals else None, goal)
        for v in self.vals:
            try:
                if v.sure(goal) is False and self.on_path(v):
                    return Verdict("refuted", "false at a point of this path", v, goal)
            except (ArithmeticError, ValueError):
                pass
        neg = mknot(goal)
        if isinstance(neg, bool):
            return Verdict("proved" if not neg else "refuted", "constant", self.vals[0] if self.vals else None, goal)
        conds = CTX.conditions()
        st, model = check(conds + [neg], self.timeout)
        if st == "unsat":
            return Verdict("proved", "solver")
        st, model = check(conds + [neg], self.timeout, defs=True, want_model=True)
        if st == "unsat":
            return Verdict("proved", "solver with stored-value definitions")
        if st == "sat":
            return Verdict("refuted", "solver model", model, goal)
        return Verdict("unknown", "solver gave up", None, goal)

    # ---- bulk confirmation of the normal-form proofs by the solver
    def confirm(self, chunk=150, timeout_s=20.0, limit=4000, deadline=None):
        """-> (confirmed, undecided, contradicted)"""
        done, self.done = self.done, []
        eqs = [(Sym.atom(ATOMS[i]), s) for i, s in self.rep.items()]
        count = [0, 0, 0]
        count[1] += max(0, len(done) - limit)
        done = done[:limit]

        def go(part, t):
            if deadline is not None and time.time() > deadline:
                count[1] += len(part)
                return
            used = set().union(*[u for _, _, u in part])
            pairs = [(a, b) for a, b, _ in part]
            r = bulk(pairs, [e for e in eqs if next(iter(e[0].atom_ids())) in used], t, only=used, lean=True)
            if r == "unsat":
                count[0] += len(part)
            elif len(part) > 1:
                n = max(1, len(part) // 4)
                for i in range(0, len(part), n):
                    go(part[i:i + n], t)
            else:
                r = bulk(pairs, eqs, timeout_s)
                count[{"unsat": 0, "sat": 2}.get(r, 1)] += 1
        for n in range(0, len(done), chunk):
            go(done[n:n + chunk], min(2.0, timeout_s))
        return tuple(count)


def bulk(pairs, eqs, timeout_s, only=None, lean=False):
    """one query: some lhs differs from its rhs, stored values being what they are defined as?"""
    e = Enc(defs=True, max_defs=100000, only=only, lean=lean)
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    s.add(z3.Or([e.t(a) != e.t(b) for a, b in pairs]))
    # equalities established between atoms that occur
    added = True
    used = set()
    while added:
        added = False
        for n, (a, b) in enumerate(eqs):
            if n in used:
                continue
            if next(iter(a.atom_ids())) in e.vars:
                used.add(n)
                s.add(e.t(a) == e.t(b))
                added = True
    for f in e.products():
        s.add(f)
    for f in e.axioms:
        s.add(f)
    t0 = time.time()
    r = str(s.check())
    dt = time.time() - t0
    if r == "sat" and e.partial:
        r = "unknown"
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["solver_s"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    return r
