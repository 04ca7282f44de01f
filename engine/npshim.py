"""The module served as `numpy` to the code under test."""
import math
import operator
import types

import numpy as np

from . import poly, smt, symarr
from .env import ENV
from .poly import Sym, SymBool, Unsupported
from .symarr import SymArray, arr, plain, wrap, full, is_sym


def symbolic_leaf(x, depth=0):
    """does a nested list contain symbolic scalars or floats?"""
    if is_sym(x) or isinstance(x, float):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(symbolic_leaf(i, depth + 1) for i in x)
    return False


def conv(x):
    if isinstance(x, SymArray):
        return x
    if is_sym(x):
        return arr(x)
    if isinstance(x, (list, tuple)) and symbolic_leaf(x):
        return arr(x)
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return arr(x)
    return x


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(operator.index(i) for i in s)
    return (operator.index(s),)


def _isint(dtype):
    if dtype is None or dtype is float:
        return False
    try:
        return np.dtype(dtype).kind in "iub"
    except TypeError:
        return False


def _f32(a, dtype):
    try:
        if dtype is not None and np.dtype(dtype).kind == "f" and np.dtype(dtype).itemsize < 8:
            a.f32 = True
    except TypeError:
        pass
    return a


class UfuncShim:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def _go(self, method, args, kw):
        n = self.u.nin if method in ("__call__",) else 1
        ins = list(args)
        if any(hasattr(a, "__symtensor__") for a in ins):
            return getattr(self.u, method)(*args, **kw)
        hot = False
        for i in range(min(len(ins), max(n, 1))):
            c = conv(ins[i])
            if isinstance(c, SymArray):
                hot = True
            elif isinstance(c, float):
                hot = True
                c = arr(c)
            ins[i] = c
        if not hot and self.u in (np.exp, np.sqrt, np.log, np.true_divide, np.sin, np.cos, np.tanh) and all(isinstance(a, (int, np.integer)) for a in ins):
            ins = [arr(a) for a in ins]
            hot = True
        if not hot:
            return getattr(self.u, method)(*args, **kw)
        if len(ins) > self.u.nin and method == "__call__":
            kw = dict(kw, out=(ins[self.u.nin],))
            ins = ins[:self.u.nin]
        if "out" in kw and kw["out"] is not None and not isinstance(kw["out"], tuple):
            kw = dict(kw, out=(kw["out"],))
        if kw.get("out", 1) is None:
            kw = {k: v for k, v in kw.items() if k != "out"}
        if method == "reduce":
            if len(ins) > 1:
                kw = dict(kw, axis=ins[1])
                ins = ins[:1]
        r = symarr.apply_ufunc(self.u, method, ins, dict(kw))
        if isinstance(r, np.ndarray) and r.ndim == 0:
            return r.item()
        return r

    def __call__(self, *a, **k):
        return self._go("__call__", a, k)

    def reduce(self, *a, **k):
        return self._go("reduce", a, k)

    def outer(self, *a, **k):
        return self._go("outer", a, k)

    def accumulate(self, *a, **k):
        return self._go("accumulate", a, k)

    def at(self, *a, **k):
        return self._go("at", a, k)


def _fnshim(f):
    def g(*a, **k):
        a = [conv(x) for x in a]
        k = {n: conv(x) if n in ("a", "x", "y", "b", "arr", "v", "weights", "m") else x for n, x in k.items()}
        if f in symarr.HANDLED and any(isinstance(x, SymArray) for x in a):
            return symarr.HANDLED[f](*a, **k)
        r = f(*a, **k)
        return symarr.wrap_all(r)
    g.__name__ = getattr(f, "__name__", "f")
    return g


def zeros(shape, dtype=None, order="C", **k):
    if _isint(dtype):
        return np.zeros(_shape(shape), dtype=dtype)
    return _f32(full(_shape(shape), 0), dtype)


def ones(shape, dtype=None, order="C", **k):
    if _isint(dtype):
        return np.ones(_shape(shape), dtype=dtype)
    return _f32(full(_shape(shape), 1), dtype)


def empty(shape, dtype=None, order="C", **k):
    if _isint(dtype):
        return np.zeros(_shape(shape), dtype=dtype)
    return _f32(ENV.garbage(_shape(shape)), dtype)


def full_(shape, fill_value, dtype=None, **k):
    if _isint(dtype):
        return np.full(_shape(shape), fill_value, dtype=dtype)
    if isinstance(fill_value, float) and not math.isfinite(fill_value):
        if math.isnan(fill_value):
            return _f32(ENV.garbage(_shape(shape)), dtype)
        a = np.empty(_shape(shape), dtype=object)
        a[...] = fill_value
        return a.view(SymArray)
    return _f32(full(_shape(shape), fill_value), dtype)


def eye(N, M=None, k=0, dtype=None, **kw):
    N = operator.index(N)
    M = N if M is None else operator.index(M)
    if _isint(dtype):
        return np.eye(N, M, k, dtype=dtype)
    a = plain(full((N, M), 0))
    for i in range(N):
        if 0 <= i + k < M:
            a[i, i + k] = poly.ONE
    return a.view(SymArray)


def array(x, dtype=None, copy=True, **k):
    nd = k.get("ndmin", 0)
    if _isint(dtype):
        if symarr.is_sym(x) or isinstance(x, SymArray) or (isinstance(x, (list, tuple)) and symbolic_leaf(x)):
            return symarr.cast(arr(x), dtype)
        return np.array(x, dtype=dtype)
    if hasattr(x, "__symtensor__"):
        a = x.__symarray__().copy()
    elif isinstance(x, np.ndarray) and x.dtype.kind in "iubUS" and dtype is None:
        return np.array(x, copy=copy)
    elif isinstance(x, (list, tuple)) and dtype is None and not symbolic_leaf(x) and not _has_arr(x):
        a = np.array(x)
        if a.dtype.kind in "iubU":
            return a
        a = arr(x)
    elif isinstance(x, (int, bool)) and dtype is None:
        return np.array(x)
    elif isinstance(x, (range,)):
        a = np.array(x) if dtype is None else arr(list(x))
        if dtype is None:
            return a
    elif hasattr(x, "__next__") or isinstance(x, (map, zip, filter)):
        return np.array(x, dtype=object)
    else:
        a = arr(x, copy=bool(copy) or copy is None)
        if copy and isinstance(x, np.ndarray):
            a = a.copy() if a.base is not None or a is x else a
    if dtype is not None and not _isint(dtype):
        if np.dtype(dtype).kind == "f":
            a = symarr.cast(a, dtype) if isinstance(a, np.ndarray) and a.ndim else arr(symarr.cast(a, dtype))
            _f32(a, dtype)
    while a.ndim < nd:
        a = a[None]
    return a


def _has_arr(x):
    return any(isinstance(i, np.ndarray) or hasattr(i, "__symarray__") or (isinstance(i, (list, tuple)) and _has_arr(i)) for i in x)


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or (not _isint(dtype) and np.dtype(dtype).kind in "fO" and np.dtype(dtype).itemsize >= 8)):
        return x
    return array(x, dtype=dtype, copy=False)


def arange_len(start, stop, step):
    q = (Sym.of(stop) - Sym.of(start)) / Sym.of(step)
    c = q.const_value()
    if c is not None:
        return max(0, math.ceil(c))
    if smt.CTX.val is None:
        raise Unsupported("arange of symbolic length outside an exploration")
    n = math.ceil(smt.CTX.val.term(q))
    for cand in (n, n + 1, n - 1):
        if smt.CTX.decide(poly.mkand(q > cand - 1, q <= cand)):
            return max(0, cand)
    raise Unsupported("arange of symbolic length")


def arange(*a, dtype=None, **k):
    if "stop" in k:
        a = (k.get("start", 0), k["stop"], k.get("step", 1))
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    if all(isinstance(x, (int, np.integer)) for x in (start, stop, step)) and (dtype is None or _isint(dtype)):
        return np.arange(start, stop, step)
    n = arange_len(start, stop, step)
    out = np.empty(n, dtype=object)
    s, d = symarr._num(start), symarr._num(step)
    for i in range(n):
        out[i] = s + d * i
    return out.view(SymArray)


def linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = operator.index(num)
    s, e = symarr._num(start), symarr._num(stop)
    out = np.empty(num, dtype=object)
    st = (e - s) / max(1, (num - 1 if endpoint else num))
    for i in range(num):
        out[i] = s + st * i
    return (out.view(SymArray), st) if retstep else out.view(SymArray)


# ---------------------------------------------------------------- random numbers
def _size(size, *params):
    if size is None:
        return np.broadcast_shapes(*[np.shape(arr(p)) for p in params])
    if isinstance(size, (list, tuple)):
        return tuple(operator.index(i) for i in size)
    return (operator.index(size),)


def _ret(r):
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else wrap(r)


def normal(loc=0.0, scale=1.0, size=None):
    shape = _size(size, loc, scale)
    xi = ENV.normals(shape)
    return _ret(arr(loc) + arr(scale) * xi)


def uniform(low=0.0, high=1.0, size=None):
    shape = _size(size, low, high)
    r = ENV.uniforms(shape)
    return _ret(arr(low) + (arr(high) - arr(low)) * r)


def standard_normal(size=None, **k):
    return normal(0, 1, size if size is not None else ())


def random_(size=None, **k):
    return uniform(0, 1, size if size is not None else ())


def multivariate_normal(mean, cov, size=None, **k):
    mean, cov = arr(mean), plain(arr(cov))
    d = cov.shape[0]
    for i in range(d):
        for j in range(d):
            if i != j and not (symarr._num(cov[i, j])).same(poly.ZERO):
                raise Unsupported("multivariate_normal with correlations")
    sd = np.array([poly.sqrt(symarr._num(cov[i, i])) for i in range(d)], dtype=object).view(SymArray)
    return mean + sd * ENV.normals(_size(size, 0) + (d,))


class Gen:
    def __init__(self, seed=None):
        if seed is not None:
            ENV.seeds.append(("generator", seed))

    normal = staticmethod(normal)
    uniform = staticmethod(uniform)
    standard_normal = staticmethod(standard_normal)
    random = staticmethod(random_)
    random_sample = staticmethod(random_)
    multivariate_normal = staticmethod(multivariate_normal)
    rand = staticmethod(lambda *s: uniform(0, 1, s))
    randn = staticmethod(lambda *s: normal(0, 1, s))

    def seed(self, *a):
        ENV.seeds.append(("seed",) + a)

    def __getattr__(self, n):
        raise Unsupported("random generator method %s" % n)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def make_random():
    m = types.ModuleType("numpy.random")
    m.normal, m.uniform, m.standard_normal = normal, uniform, standard_normal
    m.random = m.random_sample = m.ranf = m.sample = random_
    m.rand = lambda *s: uniform(0, 1, s)
    m.randn = lambda *s: normal(0, 1, s)
    m.multivariate_normal = multivariate_normal
    m.default_rng = lambda seed=None: Gen(seed)
    m.RandomState = Gen
    m.Generator = Gen
    m.seed = lambda *a, **k: ENV.seeds.append(("seed",) + a)
    m.get_state = lambda *a, **k: ("state",)
    m.set_state = lambda *a, **k: ENV.seeds.append(("set_state",))
    for n in ("choice", "permutation", "shuffle", "randint", "multinomial", "exponential", "beta", "gamma"):
        setattr(m, n, _unsup("np.random." + n))
    return m


def make_linalg():
    m = types.ModuleType("numpy.linalg")
    m.inv, m.solve, m.det, m.norm = symarr.inv, symarr.solve, symarr.det, symarr.norm
    m.pinv = symarr.pinv
    m.LinAlgError = np.linalg.LinAlgError
    m.lstsq = lambda a, b, *r, **k: (symarr.solve(a, b), None, None, None)
    m.multi_dot = lambda xs: __import__("functools").reduce(symarr.matmul_any, xs)
    for n in ("eig", "eigh", "svd", "cholesky", "qr", "eigvals", "eigvalsh", "matrix_rank", "cond", "slogdet"):
        setattr(m, n, _unsup("np.linalg." + n))
    return m


class Float64(np.float64, metaclass=type("F64", (type,), {"__instancecheck__": lambda c, x: isinstance(x, (np.float64, Sym))})):
    """numpy.float64: identity on symbolic values"""
    def __new__(cls, x=0.0):
        return x if isinstance(x, (Sym, SymArray)) else Sym.of(np.float64(x).item()) if np.ndim(x) == 0 else arr(x)


class NpShim(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = UfuncShim(v)
        elif callable(v) and not isinstance(v, type) and not isinstance(v, types.ModuleType):
            v = _fnshim(v)
        setattr(self, name, v)
        return v


def make():
    m = NpShim("numpy")
    m.zeros, m.ones, m.empty, m.full, m.eye = zeros, ones, empty, full_, eye
    m.identity = lambda n, dtype=None, **k: eye(n, dtype=dtype)
    m.array = array
    m.asarray = m.asanyarray = m.ascontiguousarray = m.asfortranarray = asarray
    m.asfarray = asarray
    m.copy = lambda a, **k: array(a)
    m.arange, m.linspace = arange, linspace
    m.random = make_random()
    m.linalg = make_linalg()
    m.float64 = Float64
    m.double = m.float_ = Float64
    m.select = lambda cs, vs, default=0: __import__("functools").reduce(lambda r, cv: m.where(cv[0], cv[1], r), list(zip(cs, vs))[::-1], default)
    m.heaviside = lambda x, h: m.where(arr(x) > 0, 1, m.where(arr(x) < 0, 0, h))
    m.__version__ = np.__version__
    m.matrix = _unsup("np.matrix")
    m.errstate = np.errstate
    m.vectorize = lambda f, **k: (lambda *a: wrap(np.frompyfunc(f, len(a), 1)(*[plain(arr(x)) for x in a])))
    m.fromfunction = lambda f, shape, **k: f(*[g for g in np.indices(shape)])
    m.fromiter = lambda it, dtype=None, count=-1: array(list(it), dtype=dtype)
    m.apply_along_axis = lambda f, axis, a, *r, **k: _along(f, axis, a, *r, **k)
    m.atleast_1d = lambda x: array(x, copy=False, ndmin=1)
    m.atleast_2d = lambda x: array(x, copy=False, ndmin=2)
    m.isscalar = lambda x: isinstance(x, Sym) or np.isscalar(x)
    m.savetxt = m.save = lambda *a, **k: None
    return m


def _along(f, axis, a, *r, **k):
    a = np.moveaxis(plain(arr(a)), axis, -1)
    outs = {}
    for i in np.ndindex(*a.shape[:-1]):
        outs[i] = f(a[i].view(SymArray), *r, **k)
    first = next(iter(outs.values()))
    fs = np.shape(arr(first))
    res = np.empty(a.shape[:-1] + fs, dtype=object)
    for i, v in outs.items():
        res[i] = plain(arr(v)) if fs else v
    return wrap(np.moveaxis(res, -1, axis) if fs else res)
