"""Stand-ins for the other libraries the code under test imports."""
import builtins
import math
import operator
import types

import numpy as np

from . import poly, symarr
from .env import ENV
from .poly import Sym, SymBool, Unsupported, mkand
from .symarr import SymArray, arr, plain, wrap, is_sym


def mod(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class Quiet:
    """accepts anything (plots, citations)"""

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__call__",):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))

    def __getitem__(self, k):
        return self

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class QuietModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Quiet()


# ---------------------------------------------------------------- scipy
def _pair(u, v, metric, p=2):
    d = [symarr._num(a) - symarr._num(b) for a, b in zip(u, v)]
    if metric in ("euclidean", "l2"):
        return poly.sqrt(symarr._num(symarr._sumlist([x * x for x in d])))
    if metric == "sqeuclidean":
        return symarr._num(symarr._sumlist([x * x for x in d]))
    if metric in ("cityblock", "l1", "manhattan") or (metric == "minkowski" and p == 1):
        return symarr._num(symarr._sumlist([poly.absolute(x) for x in d]))
    if metric == "minkowski" and p == 2:
        return _pair(u, v, "euclidean")
    if metric in ("chebyshev", "chebychev"):
        return poly.maximum(*[poly.absolute(x) for x in d])
    raise Unsupported("metric %r" % (metric,))


def _two(x):
    x = plain(arr(x))
    if x.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    return x


def cdist(XA, XB, metric="euclidean", *, out=None, p=2, **k):
    A, B = _two(XA), _two(XB)
    if A.shape[1] != B.shape[1]:
        raise ValueError("XA and XB must have the same number of columns (i.e. feature dimension.)")
    r = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            r[i, j] = metric(A[i].view(SymArray), B[j].view(SymArray)) if callable(metric) else _pair(A[i], B[j], metric, p)
    if out is not None:
        out[...] = r
        return out
    return r.view(SymArray)


def pdist(X, metric="euclidean", *, out=None, p=2, **k):
    A = _two(X)
    n = A.shape[0]
    r = []
    for i in range(n):
        for j in range(i + 1, n):
            r.append(metric(A[i].view(SymArray), A[j].view(SymArray)) if callable(metric) else _pair(A[i], A[j], metric, p))
    a = np.empty(len(r), dtype=object)
    a[:] = r
    return a.view(SymArray)


def squareform(X, *a, **k):
    X = plain(arr(X))
    if X.ndim == 2:
        n = X.shape[0]
        return wrap(np.array([X[i, j] for i in range(n) for j in range(i + 1, n)] + [None], dtype=object)[:-1])
    m = len(X)
    n = int(math.ceil((1 + math.sqrt(1 + 8 * m)) / 2)) if m else 1
    r = plain(symarr.full((n, n), 0))
    q = 0
    for i in range(n):
        for j in range(i + 1, n):
            r[i, j] = r[j, i] = X[q]
            q += 1
    return r.view(SymArray)


def logsumexp(a, axis=None, b=None, keepdims=False, **k):
    a = arr(a)
    e = np.exp(a)
    if b is not None:
        e = e * b
    return np.log(arr(symarr.reduce_arr(symarr.e_add, e, axis, keepdims, 0))) if axis is not None or keepdims else poly.log(symarr.reduce_arr(symarr.e_add, e, None, False, 0))


def softmax(x, axis=None):
    e = np.exp(arr(x))
    return e / arr(symarr.reduce_arr(symarr.e_add, e, axis, True, 0))


def cho_factor(a, *r, **k):
    return ("cho", arr(a))


def cho_solve(c, b, *r, **k):
    return symarr.solve(c[1], b)


# ---------------------------------------------------------------- transport solvers
def _cost(T, dist):
    if T.size > 2500:       # what such a plan costs stays open: some number
        return ENV.garbage((1,))[0]
    return symarr.reduce_arr(symarr.e_add, T * arr(dist), None, False, 0)


def emd_with_flow(first, second, dist, extra_mass_penalty=-1.0, *a, **k):
    for x in (first, second):
        if np.ndim(x) != 1:
            raise ValueError("emd: histograms must be one-dimensional")
    T = ENV.plan(first, second, dist, "pyemd")
    return _cost(T, dist), [list(r) for r in plain(T)]


def pyemd_emd(first, second, dist, *a, **k):
    return emd_with_flow(first, second, dist)[0]


def _back(like, a):
    if hasattr(like, "__symtensor__"):
        return like.new_from(a)
    return wrap(plain(a))


def ot_dist(x1, x2=None, metric="sqeuclidean", p=2, w=None, **k):
    A = plain(arr(x1))
    B = A if x2 is None else plain(arr(x2))
    return _back(x1, cdist(A.view(SymArray), B.view(SymArray), metric, p=p))


def ot_emd(a, b, M, numItermax=100000, log=False, *r, **k):
    A, B = arr(a), arr(b)
    if A.size == 0:
        A = symarr.full((M.shape[0],), Sym.of(1) / M.shape[0])
    if B.size == 0:
        B = symarr.full((M.shape[1],), Sym.of(1) / M.shape[1])
    T = ENV.plan(A, B, arr(M), "pot")
    T = _back(M if hasattr(M, "__symtensor__") else a, T)
    return (T, {}) if log else T


def ot_emd2(a, b, M, *r, **k):
    T = ENV.plan(a, b, arr(M), "pot")
    return _cost(T, M)


def ot_unif(n, **k):
    return symarr.full((operator.index(n),), Sym.of(1) / operator.index(n))


def ot_other(name):
    def f(*a, **k):
        raise Unsupported("ot." + name)
    return f


# ---------------------------------------------------------------- numba
class Numba:
    """numba.njit leaves the function as it is; prange hands out iterations in the order under test"""
    order = "forward"
    current = []
    epoch = 0

    @classmethod
    def prange(cls, *a):
        its = list(range(*[operator.index(x) for x in a]))
        if cls.order == "reverse":
            its = its[::-1]
        elif cls.order == "odd-even":
            its = its[1::2] + its[0::2]
        elif cls.order == "rotate":
            its = its[len(its) // 2:] + its[:len(its) // 2]
        if not cls.current:
            cls.epoch += 1
        for i in its:
            cls.current.append(i)
            try:
                yield i
            finally:
                cls.current.pop()


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return _dispatch(a[0])
    return lambda f: _dispatch(f)


def _dispatch(f):
    f.py_func = f
    return f


# ---------------------------------------------------------------- math
def _m1(symf, realf=None):
    def f(x):
        if hasattr(x, "__symtensor__"):
            x = x.item()
        if isinstance(x, np.ndarray):
            x = x.item()
        return symf(x)
    return f


def make_math():
    m = types.ModuleType("math")
    for n in dir(math):
        setattr(m, n, getattr(math, n))
    m.exp = _m1(symarr.e_exp)
    m.sqrt = _m1(symarr.e_sqrt)
    m.log = lambda x, base=None: symarr.e_log(x) if base is None else symarr.e_log(x) / symarr.e_log(base)
    m.fabs = _m1(symarr.e_abs)
    for n in ("sin", "cos", "tanh", "tan", "atan", "sinh", "cosh"):
        setattr(m, n, _m1(symarr.e_uf("arctan" if n == "atan" else n)))
    m.pow = symarr.e_pow
    m.fsum = symarr._sumlist
    m.hypot = lambda *a: poly.sqrt(symarr._num(symarr._sumlist([symarr._num(x) * symarr._num(x) for x in a])))
    m.dist = lambda p, q: _pair(list(p), list(q), "euclidean")
    m.isnan = m.isinf = lambda x: False if is_sym(x) else math.isnan(x)
    m.isinf = lambda x: False if is_sym(x) else math.isinf(x)
    m.isfinite = lambda x: True if is_sym(x) else math.isfinite(x)
    m.floor = lambda x: _toint(symarr.e_floor(x)) if is_sym(x) else math.floor(x)
    m.ceil = lambda x: _toint(symarr.e_ceil(x)) if is_sym(x) else math.ceil(x)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: poly.absolute(symarr._num(a) - symarr._num(b)) <= poly.maximum(
        Sym.of(rel_tol) * poly.maximum(poly.absolute(symarr._num(a)), poly.absolute(symarr._num(b))), Sym.of(abs_tol))
    return m


def _toint(s):
    c = s.const_value()
    if c is None:
        return s
    return int(c)


# ---------------------------------------------------------------- logging
def make_logging():
    import logging as real
    m = types.ModuleType("logging")
    for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"):
        setattr(m, n, getattr(real, n))

    def rec(level):
        return lambda *a, **k: ENV.logs.append((level,) + tuple(str(x) for x in a[:1]))

    for n in ("debug", "info", "warning", "error", "critical", "exception", "warn"):
        setattr(m, n, rec(n))
    m.basicConfig = lambda *a, **k: None
    lg = types.SimpleNamespace(**{n: rec(n) for n in ("debug", "info", "warning", "error", "critical", "exception", "warn")},
                               setLevel=lambda *a: None, addHandler=lambda *a: None, isEnabledFor=lambda *a: False, level=30)
    m.getLogger = lambda *a: lg
    m.NullHandler = m.StreamHandler = Quiet
    return m


# ---------------------------------------------------------------- the table
def table():
    from . import npshim
    np_ = npshim.make()
    t = {"numpy": np_, "numpy.linalg": np_.linalg, "numpy.random": np_.random}
    dist = mod("scipy.spatial.distance", cdist=cdist, pdist=pdist, squareform=squareform,
               euclidean=lambda u, v: _pair(list(arr(u)), list(arr(v)), "euclidean"),
               sqeuclidean=lambda u, v: _pair(list(arr(u)), list(arr(v)), "sqeuclidean"))
    spatial = mod("scipy.spatial", distance=dist,
                  distance_matrix=lambda x, y, p=2, **k: cdist(x, y, "minkowski", p=p))
    linalg = mod("scipy.linalg", inv=lambda a, *r, **k: symarr.inv(a), solve=lambda a, b, *r, **k: symarr.solve(a, b),
                 norm=symarr.norm, pinv=symarr.pinv, det=symarr.det, cho_factor=cho_factor,
                 cho_solve=cho_solve, pinvh=symarr.pinv, lu_factor=cho_factor, lu_solve=cho_solve,
                 LinAlgError=np.linalg.LinAlgError)
    special = mod("scipy.special", logsumexp=logsumexp, softmax=softmax)
    scipy = mod("scipy", spatial=spatial, linalg=linalg, special=special, __version__="1.18")
    t.update({"scipy": scipy, "scipy.spatial": spatial, "scipy.spatial.distance": dist, "scipy.linalg": linalg,
              "scipy.special": special})
    t["pyemd"] = mod("pyemd", emd_with_flow=emd_with_flow, emd=pyemd_emd)
    lp = mod("ot.lp", emd=ot_emd, emd2=ot_emd2)
    utils = mod("ot.utils", dist=ot_dist, unif=ot_unif)
    t["ot"] = mod("ot", dist=ot_dist, emd=ot_emd, emd2=ot_emd2, unif=ot_unif, lp=lp, utils=utils,
                  sinkhorn=ot_other("sinkhorn"), __version__="0.9")
    t["ot.lp"], t["ot.utils"] = lp, utils
    nb = mod("numba", njit=njit, jit=njit, prange=Numba.prange, float64=float, int64=int, boolean=bool, config=Quiet(),
             get_num_threads=lambda: 1, set_num_threads=lambda n: None, vectorize=ot_other("numba.vectorize"),
             guvectorize=ot_other("numba.guvectorize"), types=Quiet(), typed=Quiet(), __version__="0.68")
    t["numba"] = nb
    for n in ("matplotlib", "matplotlib.pyplot", "seaborn"):
        t[n] = QuietModule(n)
    t["matplotlib"].pyplot = t["matplotlib.pyplot"]
    t["duecredit"] = mod("duecredit", due=Quiet(), BibTeX=Quiet(), Doi=Quiet(), Url=Quiet(), Text=Quiet())
    t["logging"] = make_logging()
    t["math"] = make_math()
    from . import symtorch
    tm, subs = symtorch.make()
    t["torch"] = tm
    t.update(subs)
    return t


# ---------------------------------------------------------------- builtins
def b_max(*a, key=None, default=None, **k):
    return _ext(a, key, builtins.max, symarr.smax, default)


def b_min(*a, key=None, default=None, **k):
    return _ext(a, key, builtins.min, symarr.smin, default)


def _ext(a, key, real, sym, default):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is not None:
        return real(xs, key=key) if default is None else real(xs, key=key, default=default)
    if not xs and default is not None:
        return default
    t = next((x for x in xs if hasattr(x, "__symtensor__")), None)
    if t is not None:
        vals = [x.item() if hasattr(x, "__symtensor__") else x for x in xs]
        return t.new_from(arr(sym(vals)))
    xs = [x.item() if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object else x for x in xs]
    if any(is_sym(x) for x in xs):
        return sym(xs)
    return real(xs)


def b_float(x=0.0):
    if hasattr(x, "__symtensor__"):
        x = x.item()
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0] if x.ndim else x.item()
    if isinstance(x, SymBool):
        return poly.ite(x, 1, 0)
    if isinstance(x, Sym):
        return x
    v = float(x)
    return Sym.of(v) if math.isfinite(v) else v


def b_int(x=0, *a):
    if hasattr(x, "__symtensor__"):
        x = x.item()
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = x.reshape(-1)[0] if x.ndim else x.item()
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, Sym):
        c = x.const_value()
        if c is not None:
            return int(c)
        from . import smt
        n = int(smt.CTX.val.term(x)) if smt.CTX.val is not None else None
        if n is None:
            raise Unsupported("int() of a symbolic value")
        # truncation towards zero, one concrete case per path
        for cand in (n, n + 1, n - 1):
            lo = cand if cand > 0 else cand - 1
            hi = cand + 1 if cand >= 0 else cand
            c = mkand(x >= lo if cand > 0 else x > lo, x < hi if cand >= 0 else x <= hi)
            if smt.CTX.decide(c) if not isinstance(c, bool) else c:
                return cand
        raise Unsupported("int() of a symbolic value")
    return int(x, *a)


def b_round(x, n=None):
    if hasattr(x, "__symtensor__"):
        x = x.item()
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = x.reshape(-1)[0] if x.ndim else x.item()
    if isinstance(x, Sym):
        r = symarr.e_round(x, n or 0)
        return _toint(r) if n is None else r
    return round(x) if n is None else round(x, n)


def b_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    if key is None and any(isinstance(x, Sym) for x in xs) and all(isinstance(x, (Sym, int, float)) for x in xs):
        r = symarr._sorted_list(xs)
        return r[::-1] if reverse else r
    return sorted(xs, key=key, reverse=reverse)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Sym):
        import numbers
        from . import npshim
        for u in ts:
            if u in (float, numbers.Number, numbers.Real, np.floating, np.float64, npshim.Float64):
                return True
    if isinstance(x, SymBool) and bool in ts:
        return True
    flat = []
    for u in ts:
        if u is b_float:
            u = float
        elif u is b_int:
            u = int
        if isinstance(u, tuple):
            flat.extend(u)
        else:
            flat.append(u)
    if isinstance(x, Sym) and any(u is float for u in flat):
        return True
    return isinstance(x, tuple(flat))


def b_range(*a):
    return range(*[operator.index(x) for x in a])


class _TypeLike:
    """float / int as called and as used in isinstance"""


def b_div(a, b):
    """the / operator: exact for plain numbers"""
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        if int(b) == 0:
            return a / b
        return Sym.of(int(a)) / int(b)
    if isinstance(a, float) and not isinstance(b, np.ndarray) and not hasattr(b, "__symtensor__") and math.isfinite(a):
        a = Sym.of(a)
    return a / b
