"""numpy over symbolic values: an object-dtype ndarray subclass, so that views, broadcasting and indexing are numpy's own."""
import builtins
import functools
import itertools
import math
import operator

import numpy as np

from . import poly
from .poly import Sym, SymBool, Unsupported, mkand, mkor, mknot, ite

_bi_max, _bi_min, _bi_sum = builtins.max, builtins.min, builtins.sum


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


# ---------------------------------------------------------------- element functions
def _num(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, 1, 0)
    return Sym.of(x)


def e_exp(x):
    return poly.exp(_num(x))


def e_log(x):
    return poly.log(_num(x))


def e_sqrt(x):
    return poly.sqrt(_num(x))


def e_abs(x):
    return poly.absolute(_num(x))


def smax(xs):
    xs = [x for x in xs if not (isinstance(x, float) and x == -math.inf)]
    return poly.maximum(*[_num(x) for x in xs])


def smin(xs):
    xs = [x for x in xs if not (isinstance(x, float) and x == math.inf)]
    return poly.minimum(*[_num(x) for x in xs])


def e_max(a, b):
    return smax([a, b])


def e_min(a, b):
    return smin([a, b])


def e_uf(name):
    def f(x):
        x = _num(x)
        if name in ("sin", "tan", "tanh", "arctan", "sinh") and not x.terms:
            return poly.ZERO
        if name in ("cos", "cosh") and not x.terms:
            return poly.ONE
        return poly.uf(name, [x])
    return f


def e_pow(a, b):
    if not is_sym(a) and not is_sym(b) and isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b >= 0:
        return int(a) ** int(b)
    return _num(a) ** (b if not isinstance(b, SymBool) else _num(b))


def e_div(a, b):
    return _num(a) / _num(b)


def e_add(a, b):
    if isinstance(a, bool) or isinstance(a, SymBool):
        a = _num(a)
    if isinstance(b, bool) or isinstance(b, SymBool):
        b = _num(b)
    return a + b


def e_mul(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkand(a, b)
    if isinstance(a, (bool, SymBool)):
        a = _num(a)
    if isinstance(b, (bool, SymBool)):
        b = _num(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return _num(a) * _num(b)
    return a * b


def e_sub(a, b):
    if isinstance(a, (bool, SymBool)):
        a = _num(a)
    if isinstance(b, (bool, SymBool)):
        b = _num(b)
    return a - b


def e_cmp(op):
    def f(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return op(a, b)
        if not is_sym(a) and not is_sym(b):
            return bool(op(a, b))
        if isinstance(a, SymBool) and isinstance(b, (bool, np.bool_, SymBool)) or isinstance(b, SymBool) and isinstance(a, (bool, np.bool_)):
            if op is operator.eq:
                return a == b if isinstance(a, SymBool) else b == a
            if op is operator.ne:
                return mknot(a == b if isinstance(a, SymBool) else b == a)
        a = a if isinstance(a, Sym) else (_num(a) if _finite(a) else a)
        b = b if isinstance(b, Sym) else (_num(b) if _finite(b) else b)
        return op(a, b)
    return f


def _finite(x):
    return isinstance(x, (Sym, SymBool)) or math.isfinite(float(x))


def _truth(x):
    if isinstance(x, (bool, np.bool_, SymBool)):
        return bool(x) if not isinstance(x, SymBool) else x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def e_and(a, b):
    return mkand(_truth(a), _truth(b))


def e_or(a, b):
    return mkor(_truth(a), _truth(b))


def e_not(a):
    return mknot(_truth(a))


def e_sign(x):
    x = _num(x)
    c = x.const_value()
    if c is not None:
        return Sym.const((c > 0) - (c < 0))
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def e_false(x):
    return False


def e_true(x):
    return True


def e_floor(x):
    x = _num(x)
    c = x.const_value()
    if c is not None:
        return Sym.const(math.floor(c))
    return poly.uf("floor", [x])


def e_ceil(x):
    return -e_floor(-_num(x))


def e_round(x, n=0):
    x = _num(x)
    c = x.const_value()
    if c is not None:
        return Sym.const(round(c, n) if n else round(c))
    return poly.uf("round", [x, Sym.const(n)])


UNARY = {
    np.exp: e_exp, np.log: e_log, np.sqrt: e_sqrt, np.absolute: e_abs, np.fabs: e_abs,
    np.sin: e_uf("sin"), np.cos: e_uf("cos"), np.tanh: e_uf("tanh"), np.arctan: e_uf("arctan"), np.tan: e_uf("tan"),
    np.sinh: e_uf("sinh"), np.cosh: e_uf("cosh"),
    np.isnan: e_false, np.isinf: e_false, np.isfinite: e_true,
    np.logical_not: e_not, np.invert: e_not, np.sign: e_sign, np.floor: e_floor, np.ceil: e_ceil, np.rint: e_round,
    np.exp2: lambda x: poly.exp(_num(x) * poly.log(Sym.const(2))), np.expm1: lambda x: e_exp(x) - 1,
    np.log1p: lambda x: e_log(_num(x) + 1), np.negative: lambda x: -_num(x) if is_sym(x) else -x, np.positive: lambda x: x,
    np.square: lambda x: _num(x) * _num(x), np.reciprocal: lambda x: 1 / _num(x), np.conjugate: lambda x: x,
    np.trunc: lambda x: e_floor(x),
}
BINARY = {
    np.add: e_add, np.subtract: e_sub, np.multiply: e_mul, np.true_divide: e_div, np.power: e_pow, np.float_power: e_pow,
    np.maximum: e_max, np.minimum: e_min, np.fmax: e_max, np.fmin: e_min,
    np.less: e_cmp(operator.lt), np.less_equal: e_cmp(operator.le), np.greater: e_cmp(operator.gt),
    np.greater_equal: e_cmp(operator.ge), np.equal: e_cmp(operator.eq), np.not_equal: e_cmp(operator.ne),
    np.logical_and: e_and, np.logical_or: e_or, np.bitwise_and: e_and, np.bitwise_or: e_or,
    np.logaddexp: lambda a, b: e_log(e_add(e_exp(a), e_exp(b))),
    np.hypot: lambda a, b: e_sqrt(_num(a) * _num(a) + _num(b) * _num(b)),
    np.floor_divide: lambda a, b: e_floor(_num(a) / _num(b)),
    np.remainder: lambda a, b: _num(a) - _num(b) * e_floor(_num(a) / _num(b)),
    np.logical_xor: lambda a, b: _truth(a) ^ _truth(b) if is_sym(a) else (_truth(b) ^ _truth(a) if is_sym(b) else bool(a) != bool(b)),
}
BOOLOPS = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.logical_and, np.logical_or,
           np.logical_not, np.isnan, np.isinf, np.isfinite, np.invert, np.bitwise_and, np.bitwise_or, np.logical_xor}
FUNCS = {u: np.frompyfunc(f, 1, 1) for u, f in UNARY.items()}
FUNCS.update({u: np.frompyfunc(f, 2, 1) for u, f in BINARY.items()})
FAST = {np.add, np.subtract, np.multiply}


def wrap(x):
    """object ndarray -> SymArray; 0-d -> scalar"""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x.item()
        if x.dtype == object:
            return x.view(SymArray)
        return x
    return x


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(plain(i) for i in x) if not hasattr(x, "_fields") else x
    return x


def arr(x, copy=False):
    """anything array-like -> SymArray (object)"""
    if isinstance(x, SymArray):
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return (x.copy() if copy else x).view(SymArray)
        return _fromnum(x)
    if is_sym(x) or np.isscalar(x):
        a = np.empty((), dtype=object)
        a[()] = x if is_sym(x) else (x if isinstance(x, (bool, int)) else Sym.of(x))
        return a.view(SymArray)
    if hasattr(x, "__symarray__"):
        return x.__symarray__().view(SymArray)
    return _fromlist(x)


def _fromnum(x):
    a = np.empty(x.shape, dtype=object)
    if x.dtype == bool:
        for i, v in np.ndenumerate(x):
            a[i] = bool(v)
    elif x.dtype.kind in "iu":
        for i, v in np.ndenumerate(x):
            a[i] = int(v)
    else:
        for i, v in np.ndenumerate(x):
            a[i] = Sym.of(float(v))
    return a.view(SymArray)


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if hasattr(x, "__symarray__"):
        return x.__symarray__().shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        shapes = [_shape_of(i) for i in x]
        if any(s != shapes[0] for s in shapes):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + shapes[0]
    return ()


def _fromlist(x):
    if isinstance(x, (map, filter, zip, itertools.chain)) or (hasattr(x, "__next__")):
        raise Unsupported("array of an iterator")
    shape = _shape_of(x)
    a = np.empty(shape, dtype=object)

    def fill(pos, v):
        if isinstance(v, (list, tuple)):
            for i, w in enumerate(v):
                fill(pos + (i,), w)
        elif isinstance(v, np.ndarray):
            if v.dtype != object:
                v = plain(_fromnum(v))
            a[pos] = plain(v) if v.ndim else v.item()
        elif hasattr(v, "__symarray__"):
            w = v.__symarray__()
            a[pos] = plain(w) if w.ndim else w.item()
        else:
            a[pos] = v if (is_sym(v) or isinstance(v, (bool, int, np.integer, np.bool_))) else Sym.of(v)
    fill((), x)
    return a.view(SymArray)


CUT = True          # name the values stored into 3-d state arrays


def _root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def _define(x):
    return poly.define(x) if isinstance(x, Sym) else x


_defun = np.frompyfunc(_define, 1, 1)


def settle(X):
    """name the entries of an array that is handed to an uninterpreted function, where they stand: a state that the
    code keeps in arrays of its own is a state all the same (naming is a definitional extension, it changes no value)"""
    if CUT and X.dtype == object and X.flags.writeable:
        for i in np.ndindex(*X.shape):
            v = X[i]
            if isinstance(v, Sym) and len(v.terms) > 1:
                X[i] = poly.define(v)
    return X


def _key(k):
    """index expression -> plain numpy index (deciding symbolic masks)"""
    if isinstance(k, tuple):
        return tuple(_key(i) for i in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        c = k.const_value()
        if c is None:
            raise Unsupported("symbolic index")
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(k, SymArray) or (isinstance(k, np.ndarray) and k.dtype == object):
        vals = list(plain(k).flat)
        if all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
            return np.array([bool(v) for v in vals], dtype=bool).reshape(k.shape)
        if all(isinstance(v, (int, np.integer)) for v in vals):
            return np.array([int(v) for v in vals], dtype=int).reshape(k.shape)
        raise Unsupported("symbolic index array")
    if hasattr(k, "__symarray__"):
        a = k.__symarray__()
        return _key(a) if a.ndim else (a.item() if not is_sym(a.item()) else _key(a.item()))
    if isinstance(k, list):
        return [_key(i) for i in k]
    if isinstance(k, slice):
        f = lambda v: None if v is None else operator.index(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


HOOK_WRITE = None
HOOK_READ = None


class SymArray(np.ndarray):
    __array_priority__ = 2000.0
    f32 = False            # declared single precision: stores are rounded

    def __array_finalize__(self, obj):
        if isinstance(obj, SymArray) and obj.f32 and self.base is not None:
            self.f32 = True

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        try:
            impl = func._implementation
        except AttributeError:
            impl = None
        try:
            if impl is not None:
                r = impl(*args, **kwargs)
            else:
                r = super().__array_function__(func, types, args, kwargs)
        except (Unsupported, poly.Unsupported):
            raise
        return wrap_all(r)

    # ---- indexing
    def __getitem__(self, k):
        if HOOK_READ is not None:
            HOOK_READ(self, k)
        r = super().__getitem__(_key(k))
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            r = r.view(SymArray)
        return r

    def __setitem__(self, k, v):
        if HOOK_WRITE is not None:
            HOOK_WRITE(self, k)
        if hasattr(v, "__symarray__"):
            v = v.__symarray__()
        if isinstance(v, (list, tuple)):
            v = _fromlist(v)
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = _fromnum(v) if v.ndim else v.item()
        if isinstance(v, SymArray):
            v = v.view(np.ndarray)
        if isinstance(v, float):
            v = Sym.of(v) if math.isfinite(v) else v
        if self.f32:
            v = plain(np.frompyfunc(round32, 1, 1)(v)) if isinstance(v, np.ndarray) else round32(v)
        if CUT and _root(self).ndim == 3:
            v = _defun(v) if isinstance(v, np.ndarray) else _define(v)
        if isinstance(k, SymArray) and k.dtype == object and any(isinstance(b, SymBool) for b in k.view(np.ndarray).flat) \
                and (not isinstance(v, np.ndarray) or v.ndim == 0):
            me = self.view(np.ndarray)
            for i, b in np.ndenumerate(k.view(np.ndarray)):
                cur = me[i]
                if isinstance(cur, np.ndarray):
                    raise Unsupported("masked row assignment")
                me[i] = ite(b, v, cur) if isinstance(b, SymBool) else (v if b else cur)
            return
        super().__setitem__(_key(k), v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(_truth(self.view(np.ndarray).reshape(-1)[0]))

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.view(np.ndarray).reshape(-1)[0]

    def __contains__(self, x):
        return bool(np.any(self == x))

    # ---- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _out(reduce_arr(e_add, self, axis, keepdims, 0), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _out(reduce_arr(e_mul, self, axis, keepdims, 1), out)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _out(reduce_minmax(poly.maximum, self, axis, keepdims), out)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _out(reduce_minmax(poly.minimum, self, axis, keepdims), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _out(mean(self, axis, keepdims), out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _out(var(self, axis, ddof, keepdims), out)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _out(std(self, axis, ddof, keepdims), out)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_arr(e_or, self, axis, keepdims, False)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_arr(e_and, self, axis, keepdims, True)

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis=axis, keepdims=keepdims) - self.min(axis=axis, keepdims=keepdims)

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return _out(r, out)

    def dot(self, o):
        return matmul_any(self, o)

    def astype(self, dtype, *a, **kw):
        return cast(self, dtype)

    def copy(self, order="C"):
        return np.array(self.view(np.ndarray), dtype=object, copy=True).view(SymArray)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda x: e_round(x, decimals), 1, 1)(self.view(np.ndarray)))

    def argsort(self, *a, **kw):
        return np.argsort(self.view(np.ndarray), *a, **kw)

    def sort(self, *a, **kw):
        self[...] = np.sort(self, *a, **kw)

    def argmax(self, axis=None, *a, **kw):
        return _argext(self, axis, operator.gt)

    def argmin(self, axis=None, *a, **kw):
        return _argext(self, axis, operator.lt)

    def cumsum(self, axis=None, *a, **kw):
        r = np.cumsum(self.view(np.ndarray), axis=axis)
        return wrap(r)

    def __pow__(self, o):
        return np.power(self, o)

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def real(self):
        return self


def _argext(a, axis, better):
    a = plain(a)

    def one(v):
        b = 0
        for i in range(1, len(v)):
            if bool(e_cmp(better)(v[i], v[b])):
                b = i
        return b
    if axis is None:
        return one(list(a.flat))
    return np.apply_along_axis(lambda i: one(i), axis, a).astype(int)


def _out(r, out):
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        out[...] = r
        return out
    return r


def wrap_all(r):
    if isinstance(r, tuple):
        return tuple(wrap_all(i) for i in r)
    if isinstance(r, list):
        return [wrap_all(i) for i in r]
    if isinstance(r, np.ndarray) and r.dtype == object and r.ndim:
        return r.view(SymArray)
    return r


def apply_ufunc(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    ins = []
    for x in inputs:
        if isinstance(x, SymArray):
            ins.append(x.view(np.ndarray))
        elif hasattr(x, "__symarray__"):
            return NotImplemented
        elif isinstance(x, np.ndarray) and x.dtype == object:
            ins.append(x)
        elif isinstance(x, np.ndarray) and x.dtype.kind == "f":
            ins.append(plain(_fromnum(x)))
        elif isinstance(x, (list, tuple)):
            ins.append(plain(_fromlist(x)))
        else:
            ins.append(x)
    if method == "__call__":
        if ufunc is np.matmul:
            r = matmul_any(*ins)
        elif ufunc in FUNCS:
            r = FUNCS[ufunc](*ins)
        else:
            raise Unsupported("ufunc %s" % ufunc)
        if where is not True:
            base = out[0] if out else np.zeros(np.shape(r), dtype=object)
            r = np.frompyfunc(lambda c, a, b: ite(_truth(c), a, b) if isinstance(c, SymBool) else (a if c else b), 3, 1)(plain(where), r, plain(base))
        if out:
            out[0][...] = r
            return out[0]
        return wrap(r) if isinstance(r, np.ndarray) else r
    if method == "reduce":
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        kw.pop("initial", None)
        a = ins[0]
        if ufunc is np.add:
            r = reduce_arr(e_add, a, axis, keep, 0)
        elif ufunc is np.multiply:
            r = reduce_arr(e_mul, a, axis, keep, 1)
        elif ufunc in (np.maximum, np.fmax):
            r = reduce_minmax(poly.maximum, a, axis, keep)
        elif ufunc in (np.minimum, np.fmin):
            r = reduce_minmax(poly.minimum, a, axis, keep)
        elif ufunc in (np.logical_and, np.bitwise_and):
            r = reduce_arr(e_and, a, axis, keep, True)
        elif ufunc in (np.logical_or, np.bitwise_or):
            r = reduce_arr(e_or, a, axis, keep, False)
        else:
            raise Unsupported("reduce of %s" % ufunc)
        return _out(r, out)
    if method == "outer":
        a, b = ins
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        return wrap(FUNCS[ufunc](a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "accumulate":
        a = ins[0]
        axis = kw.get("axis", 0)
        a = np.moveaxis(np.asarray(a, dtype=object), axis, 0)
        r = np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            r[i] = a[i] if i == 0 else FUNCS[ufunc](r[i - 1], a[i])
        return wrap(np.moveaxis(r, 0, axis))
    if method == "at":
        a, idx, b = inputs
        at = np.arange(a.size).reshape(a.shape)[_key(idx)]
        b = np.broadcast_to(np.asarray(plain(arr(b)), dtype=object), np.shape(at))
        for n, i in enumerate(np.asarray(at).flat):
            i = np.unravel_index(int(i), a.shape)
            a[i] = FUNCS[ufunc](plain(a)[i], b.flat[n])
        return None
    raise Unsupported("ufunc method %s" % method)


# ---------------------------------------------------------------- reductions
def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, tuple):
        axis = (axis,)
    return tuple(operator.index(a) % nd for a in axis)


def _reduce(fn, a, axis, keep):
    a = np.asarray(plain(a), dtype=object) if not isinstance(a, np.ndarray) else plain(a)
    if a.dtype != object:
        a = plain(_fromnum(a))
    nd = a.ndim
    if nd == 0:
        return fn([a.item()])
    ax = _axes(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    t = a.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
    shape = [a.shape[i] for i in rest]
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        r[i] = fn(list(t[i]))
    if keep:
        r = r.reshape([1 if i in ax else a.shape[i] for i in range(nd)])
        return r.view(SymArray)
    return wrap(r)


def _sumlist(xs):
    """sum of many terms without quadratic copying"""
    if any(isinstance(x, (Sym, SymBool)) for x in xs):
        acc = {}
        for x in xs:
            x = _num(x)
            for m, c in x.terms.items():
                v = acc.get(m)
                if v is None:
                    acc[m] = c
                else:
                    v = v + c
                    if v:
                        acc[m] = v
                    else:
                        del acc[m]
        return Sym(acc)
    return _bi_sum(xs)


def reduce_arr(op, a, axis, keep, init):
    if op is e_add:
        return _reduce(_sumlist, a, axis, keep)
    return _reduce(lambda xs: functools.reduce(op, xs, init), a, axis, keep)


def reduce_minmax(f, a, axis, keep):
    _settled(a)
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return (smax if f is poly.maximum else smin)(xs)
    return _reduce(g, a, axis, keep)


def mean(a, axis=None, keepdims=False):
    def g(xs):
        return _num(_sumlist(xs)) / len(xs)
    return _reduce(g, a, axis, keepdims)


def _var(xs, ddof):
    n = len(xs)
    s = _num(_sumlist(xs))
    m = s / n
    if n > 40:
        s = poly.define(s)
    if n > 8:
        # the same polynomial, without n products of n terms
        sq = _num(_sumlist([_num(x) * _num(x) for x in xs])) - s * s / n
    else:
        sq = _sumlist([(_num(x) - m) * (_num(x) - m) for x in xs])
    if n - ddof == 0:
        raise Unsupported("variance of one value with ddof=1")
    return _num(sq) / (n - ddof)


def _settled(a):
    """statistics of a cloud: its points named first (see settle)"""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size > 1:
        settle(plain(a))
    return a


def var(a, axis=None, ddof=0, keepdims=False):
    _settled(a)
    return _reduce(lambda xs: _var(xs, ddof), a, axis, keepdims)


def std(a, axis=None, ddof=0, keepdims=False):
    _settled(a)
    return _reduce(lambda xs: poly.sqrt(_var(xs, ddof)), a, axis, keepdims)


# ---------------------------------------------------------------- linear algebra
def _dot(u, v):
    return _sumlist([e_mul(x, y) for x, y in zip(u, v)])


def matmul_any(a, b, out=None, **k):
    if out is not None:
        out[...] = matmul_any(a, b)
        return out
    a, b = np.asarray(plain(arr(a))), np.asarray(plain(arr(b)))
    if a.ndim == 0 or b.ndim == 0:
        return wrap(FUNCS[np.multiply](a, b))
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (b.shape[-2], a.shape[-1]))
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    r = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for l in np.ndindex(*lead):
        A, B = a[l], b[l]
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                r[l + (i, j)] = _dot(A[i], B[:, j])
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return wrap(r) if isinstance(r, np.ndarray) else r


EXPLICIT_INV = 2      # sizes up to this are inverted explicitly


class InvRec:
    """an opaque matrix inverse, shared by content"""

    def __init__(self, m):
        self.m = m                       # list of lists of Sym
        self.n = len(m)
        self.sym = all(m[i][j].same(m[j][i]) for i in range(self.n) for j in range(i))

    def deps(self):
        return tuple(x for r in self.m for x in r)

    def numeric(self, val):
        c = getattr(self, "_num", None)
        if c is None or c[0] is not val:
            a = np.array([[val._poly(x) for x in r] for r in self.m])
            try:
                v = np.linalg.inv(a)
            except np.linalg.LinAlgError:
                v = np.full(a.shape, np.nan)
            self._num = (val, v)
            c = self._num
        return c[1]


_INV = {}


def det(a):
    a = plain(arr(a))
    n = a.shape[0]
    if n == 1:
        return _num(a[0, 0])
    if n == 2:
        return _num(a[0, 0]) * _num(a[1, 1]) - _num(a[0, 1]) * _num(a[1, 0])
    if n <= 4:
        s = poly.ZERO
        for j in range(n):
            minor = np.delete(np.delete(a, 0, 0), j, 1)
            s = s + (-1) ** j * _num(a[0, j]) * det(minor)
        return s
    raise Unsupported("determinant of size %d" % n)


def inv(a):
    a = plain(arr(a))
    if a.ndim > 2:
        r = np.empty(a.shape, dtype=object)
        for l in np.ndindex(*a.shape[:-2]):
            r[l] = plain(inv(a[l]))
        return r.view(SymArray)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[0]
    m = [[_num(a[i, j]) for j in range(n)] for i in range(n)]
    r = np.empty((n, n), dtype=object)
    if n <= EXPLICIT_INV:
        d = det(a)
        q = poly.recip(d)
        if n == 1:
            r[0, 0] = q
        else:
            r[0, 0] = m[1][1] * q
            r[1, 1] = m[0][0] * q
            r[0, 1] = -m[0][1] * q
            r[1, 0] = -m[1][0] * q
        return r.view(SymArray)
    key = tuple(poly.K(x) for row in m for x in row)
    rec = _INV.get(key)
    if rec is None:
        rec = _INV[key] = InvRec(m)
        rec.key = len(_INV)
    for i in range(n):
        for j in range(n):
            p, q = (j, i) if (rec.sym and j < i) else (i, j)
            r[i, j] = Sym.atom(_inv_atom(rec, p, q))
    return r.view(SymArray)


def _inv_atom(rec, i, j):
    k = ("inv", rec.key, i, j)
    a = poly._INTERN.get(k)
    if a is None:
        a = poly.Atom("inv", (rec, i, j), "inv%d[%d,%d]" % (rec.key, i, j), None)
        poly._INTERN[k] = a
    return a


def reset():
    _INV.clear()


def solve(a, b):
    return matmul_any(inv(a), b)


def norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if axis is None and x.ndim > 1 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    if ord in (None, 2, "fro"):
        return np.sqrt(reduce_arr(e_add, np.square(x), axis, keepdims, 0)) if True else None
    if ord == 1:
        return reduce_arr(e_add, np.abs(x), axis, keepdims, 0)
    if ord in (np.inf, float("inf")):
        return reduce_minmax(poly.maximum, np.abs(x), axis, keepdims)
    raise Unsupported("norm ord %r" % (ord,))


def einsum(spec, *ops, **kw):
    ops = [plain(arr(o)) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        lhs, arrow, out = spec.partition("->")
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        parts = lhs.split(",")
        ns = [o.ndim - len(t.replace("...", "")) if "..." in t else 0 for t, o in zip(parts, ops)]
        big = free[:_bi_max(ns)]
        lhs = ",".join(t.replace("...", "".join(big[len(big) - n:]) if n else "") for t, n in zip(parts, ns))
        if not arrow:
            one = lhs.replace(",", "")
            out = "..." + "".join(sorted(c for c in set(one) if one.count(c) == 1 and c not in big))
        spec = lhs + "->" + out.replace("...", "".join(big))
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        cnt = {}
        for c in lhs.replace(",", ""):
            cnt[c] = cnt.get(c, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: operand count")
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: dimension mismatch")
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) not in (n, 1) and n != 1:
                raise ValueError("einsum: size mismatch")
            size[c] = _bi_max(size[c], n)
    summed = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for pos in np.ndindex(*r.shape):
        env = dict(zip(out, pos))
        acc = []
        for sp in np.ndindex(*[size[c] for c in summed]):
            env.update(zip(summed, sp))
            t = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] if o.shape[n] > 1 else 0 for n, c in enumerate(s))]
                t = v if t is None else e_mul(t, v)
            acc.append(t)
        r[pos] = _sumlist(acc)
    return wrap(r)


# ---------------------------------------------------------------- casts
def cast(a, dtype):
    dt = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
    p = plain(arr(a))
    if dt.kind == "f":
        if dt.itemsize >= 8:
            return wrap(np.frompyfunc(_num, 1, 1)(p).copy()) if p.ndim else _num(p.item())
        return wrap(np.frompyfunc(round32, 1, 1)(p))
    if dt.kind == "O":
        return wrap(p.copy())
    if dt.kind in "iu":
        def toint(x):
            if is_sym(x):
                x = _num(x)
                c = x.const_value()
                if c is None:
                    return poly.uf("trunc", [x])
                return int(c)
            return int(x)
        r = np.frompyfunc(toint, 1, 1)(p)
        if isinstance(r, np.ndarray) and all(isinstance(v, int) for v in r.flat):
            return r.astype(int)
        return wrap(r)
    if dt.kind == "b":
        return wrap(np.frompyfunc(_truth, 1, 1)(p))
    raise Unsupported("cast to %s" % dt)


def round32(x):
    if isinstance(x, (bool, SymBool)):
        return x
    x = _num(x)
    c = x.const_value()
    if c is not None:
        f = float(np.float32(float(c)))
        return x if f == float(c) else Sym.const(f)
    a = x.single_atom()
    if a is not None and a.kind == "uf" and a.data[0] == "round32":
        return x
    return poly.uf("round32", [x])


# ---------------------------------------------------------------- functions reached through __array_function__
def h_where(c, *xy):
    if not xy:
        c = plain(arr(c))
        return np.nonzero(np.frompyfunc(lambda v: bool(_truth(v)), 1, 1)(c).astype(bool))
    x, y = xy
    f = np.frompyfunc(lambda c, a, b: ite(c, _num(a), _num(b)) if isinstance(c, SymBool) else (a if c else b), 3, 1)
    return wrap(f(plain(np.frompyfunc(_truth, 1, 1)(plain(arr(c)))), plain(arr(x)), plain(arr(y))))


def h_array_equal(a, b, **k):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return reduce_arr(e_and, np.equal(a, b), None, False, True)


def h_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = arr(a), arr(b)
    return reduce_arr(e_and, np.abs(a - b) <= atol + rtol * np.abs(b), None, False, True)


def h_concat(fn):
    def g(arrays, *a, **k):
        k.pop("dtype", None)
        return wrap(fn([plain(arr(x)) for x in arrays], *a, **k))
    return g


def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = arr(m)
    if m.ndim == 1:
        m = m[None, :]
    if not rowvar:
        m = m.T
    n = m.shape[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    d = m - mean(m, axis=1, keepdims=True)
    r = matmul_any(d, d.T) / (n - dd)
    return r[0, 0] if r.shape == (1, 1) else r


def h_average(a, axis=None, weights=None, **k):
    a = arr(a)
    if weights is None:
        return mean(a, axis)
    w = arr(weights)
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return (a * w).sum(axis=axis) / (w + 0 * a).sum(axis=axis)


def _mkfull(val):
    def f(a, dtype=None, *r, **k):
        if dtype is not None and np.dtype(dtype).kind in "iub":
            return np.full(np.shape(a), val, dtype=dtype)
        return full(np.shape(a), val)
    return f


def full(shape, val):
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    elif hasattr(shape, "__index__") and not isinstance(shape, (list, tuple)):
        shape = (operator.index(shape),)
    shape = tuple(operator.index(s) for s in shape)
    r = np.empty(shape, dtype=object)
    r[...] = val if is_sym(val) else (Sym.of(val) if not isinstance(val, np.ndarray) else plain(arr(val)))
    return r.view(SymArray)


def h_interp(x, xp, fp, left=None, right=None, **k):
    """piecewise linear between increasing points, constant outside"""
    xp, fp = plain(arr(xp)).reshape(-1), plain(arr(fp)).reshape(-1)

    def one(v):
        v = Sym.of(v)
        r = fp[-1] if right is None else right
        for i in range(len(xp) - 1, 0, -1):
            t = e_div(e_sub(v, xp[i - 1]), e_sub(xp[i], xp[i - 1]))
            r = ite(v <= xp[i] if i == len(xp) - 1 else v < xp[i], e_add(fp[i - 1], e_mul(t, e_sub(fp[i], fp[i - 1]))), r)
        return ite(v < xp[0], fp[0] if left is None else left, r)
    x = plain(arr(x))
    r = np.frompyfunc(one, 1, 1)(x)
    return wrap(r) if isinstance(r, np.ndarray) else r


def _sorted_list(xs):
    """order statistics: the extremes as min and max, the inner ones by a network of min and max"""
    xs = list(xs)
    if any(isinstance(x, Sym) and not x.is_const() for x in xs) and all(isinstance(x, (Sym, int, float, np.number)) for x in xs):
        xs = [Sym.of(x) for x in xs]
        if len(xs) == 1:
            return xs
        lo, hi = poly.minimum(*xs), poly.maximum(*xs)
        if len(xs) == 2:
            return [lo, hi]
        if len(xs) == 3:
            return [lo, xs[0] + xs[1] + xs[2] - lo - hi, hi]
        v = list(xs)
        for r in range(len(v)):
            for i in range(r % 2, len(v) - 1, 2):
                v[i], v[i + 1] = poly.minimum(v[i], v[i + 1]), poly.maximum(v[i], v[i + 1])
        return [lo] + v[1:-1] + [hi]
    return sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if bool(e_cmp(operator.lt)(a, b)) else (1 if bool(e_cmp(operator.gt)(a, b)) else 0)))


def h_median(a, axis=None, keepdims=False, **k):
    def g(xs):
        s = _sorted_list(xs)
        n = len(s)
        return _num(s[n // 2]) if n % 2 else (_num(s[n // 2 - 1]) + _num(s[n // 2])) / 2
    return _reduce(g, a, axis, keepdims)


def h_quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, scale=1, **k):
    if method != "linear" or np.ndim(q):
        raise Unsupported("quantile")
    q = Sym.of(q)
    if not q.is_const():
        raise Unsupported("quantile at a symbolic level")
    q = q.const_value() / scale

    def g(xs):
        s = [Sym.of(v) for v in _sorted_list(xs)]
        pos = q * (len(s) - 1)
        i = int(pos)
        return s[i] if pos == i else s[i] + (s[i + 1] - s[i]) * Sym.const(pos - i)
    return _reduce(g, a, axis, keepdims)


def pinv(a, rcond=None, *r, rtol=None, atol=None, hermitian=False, cond=None, **k):
    """a pseudo-inverse of regular matrices is their inverse; with a cutoff that may discard directions it is a function
    of the matrix of which only the value at a point is known"""
    cut = next((float(c) for c in (rcond, rtol, atol, cond) if c is not None), 0.0)
    if cut <= 1e-9:
        return inv(a)
    a = plain(arr(a))
    if a.ndim != 2 or a.shape[0] == 1 == a.shape[1] and atol is None:
        return inv(a)
    deps = tuple(_num(x) for x in a.flat)
    key = ("pinv", cut, a.shape, tuple(poly.K(d) for d in deps))
    ids = frozenset(x for d in deps for x in d.atom_ids())
    cache = []

    def value(val, i, j):
        if not cache or cache[0] is not val:
            m = np.array([val._poly(x) for x in deps], dtype=float).reshape(a.shape)
            cache[:] = [val, np.linalg.pinv(m, rcond=cut) if np.isfinite(m).all() else np.full(a.shape[::-1], np.nan)]
        return float(cache[1][i, j])
    out = np.empty(a.shape[::-1], dtype=object)
    for i, j in np.ndindex(*out.shape):
        k = key + (i, j)
        at = poly._INTERN.get(k)
        if at is None:
            at = poly._INTERN[k] = poly.Atom("var", "pinv", "pinv_%d_%d#%d" % (i, j, len(poly.ATOMS)),
                                             {"kind": "real", "plan": ("pinv", cut, i, j), "deps": deps, "ids": ids, "eval": lambda val, i=i, j=j: value(val, i, j)})
        out[i, j] = Sym.atom(at)
    return out.view(SymArray)


def h_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """distinct entries, or rows, in increasing order: every comparison made is a branch of the path"""
    a = plain(arr(a))
    rows = [[x] for x in a.reshape(-1)] if axis is None else [list(x.reshape(-1)) for x in np.moveaxis(a, axis, 0)]
    groups = []                     # (row, indices), in order
    for n, r in enumerate(rows):
        for at, (g, ids) in enumerate(groups):
            order = 0
            for x, y in zip(r, g):
                if bool(e_cmp(operator.eq)(x, y)):
                    continue
                order = -1 if bool(e_cmp(operator.lt)(x, y)) else 1
                break
            if order == 0:
                ids.append(n)
                break
            if order < 0:
                groups.insert(at, (r, [n]))
                break
        else:
            groups.append((r, [n]))
    first = np.array([ids[0] for _, ids in groups], dtype=int)
    inverse = np.zeros(len(rows), dtype=int)
    for j, (_, ids) in enumerate(groups):
        inverse[ids] = j
    u = a.reshape(-1)[first] if axis is None else np.take(a, first, axis=axis)
    out = [wrap(u)] + [first] * bool(return_index) + [inverse] * bool(return_inverse) + [np.array([len(i) for _, i in groups])] * bool(return_counts)
    return out[0] if len(out) == 1 else tuple(out)


HANDLED = {
    np.unique: h_unique,
    np.quantile: h_quantile, np.nanquantile: h_quantile,
    np.percentile: lambda a, q, *r, **k: h_quantile(a, q, *r, scale=100, **k),
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _out(reduce_arr(e_add, a, axis, keepdims, 0), out),
    np.prod: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _out(reduce_arr(e_mul, a, axis, keepdims, 1), out),
    np.mean: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _out(mean(a, axis, keepdims), out),
    np.nanmean: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _out(mean(a, axis, keepdims), out),
    np.std: lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _out(std(a, axis, ddof, keepdims), out),
    np.nanstd: lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _out(std(a, axis, ddof, keepdims), out),
    np.var: lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _out(var(a, axis, ddof, keepdims), out),
    np.max: lambda a, axis=None, out=None, keepdims=False, **k: _out(reduce_minmax(poly.maximum, a, axis, keepdims), out),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k: _out(reduce_minmax(poly.minimum, a, axis, keepdims), out),
    np.nanmax: lambda a, axis=None, out=None, keepdims=False, **k: _out(reduce_minmax(poly.maximum, a, axis, keepdims), out),
    np.nanmin: lambda a, axis=None, out=None, keepdims=False, **k: _out(reduce_minmax(poly.minimum, a, axis, keepdims), out),
    np.nansum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _out(reduce_arr(e_add, a, axis, keepdims, 0), out),
    np.ptp: lambda a, axis=None, out=None, keepdims=False, **k: arr(a).ptp(axis=axis),
    np.any: lambda a, axis=None, out=None, keepdims=False, **k: reduce_arr(e_or, a, axis, keepdims, False),
    np.all: lambda a, axis=None, out=None, keepdims=False, **k: reduce_arr(e_and, a, axis, keepdims, True),
    np.clip: lambda a, a_min=None, a_max=None, out=None, min=None, max=None, **k: arr(a).clip(a_min if a_min is not None else min, a_max if a_max is not None else max, out),
    np.where: h_where,
    np.array_equal: h_array_equal,
    np.allclose: h_allclose,
    np.concatenate: h_concat(np.concatenate), np.stack: h_concat(np.stack), np.vstack: h_concat(np.vstack),
    np.hstack: h_concat(np.hstack), np.column_stack: h_concat(np.column_stack), np.dstack: h_concat(np.dstack),
    np.dot: matmul_any, np.inner: lambda a, b: matmul_any(a, np.swapaxes(arr(b), -1, -2) if arr(b).ndim > 1 else b),
    np.vdot: lambda a, b: _dot(list(plain(arr(a)).flat), list(plain(arr(b)).flat)),
    np.outer: lambda a, b, out=None: wrap(FUNCS[np.multiply](plain(arr(a)).reshape(-1, 1), plain(arr(b)).reshape(1, -1))),
    np.einsum: einsum,
    np.linalg.inv: inv, np.linalg.solve: solve, np.linalg.det: det, np.linalg.norm: norm,
    np.linalg.pinv: pinv,
    np.zeros_like: _mkfull(0), np.ones_like: _mkfull(1), np.empty_like: _mkfull(0),
    np.full_like: lambda a, v, *r, **k: full(np.shape(a), v),
    np.cov: h_cov, np.average: h_average, np.median: h_median, np.nanmedian: h_median,
    np.sort: lambda a, axis=-1, **k: wrap(np.apply_along_axis(lambda v: np.array(_sorted_list(list(v)) + [None], dtype=object)[:-1], axis, plain(arr(a)))),
    np.argmax: lambda a, axis=None, **k: arr(a).argmax(axis), np.argmin: lambda a, axis=None, **k: arr(a).argmin(axis),
    np.round: lambda a, decimals=0, out=None: arr(a).round(decimals),
    np.around: lambda a, decimals=0, out=None: arr(a).round(decimals),
    np.diag: lambda v, k=0: wrap(_diag(plain(arr(v)), k)),
    np.trace: lambda a, *r, **k: _sumlist([arr(a)[i, i] for i in range(arr(a).shape[0])]),
    np.kron: None, np.interp: h_interp,
    np.isclose: lambda a, b, rtol=1e-5, atol=1e-8, **k: np.abs(arr(a) - arr(b)) <= atol + rtol * np.abs(arr(b)),
    np.nan_to_num: lambda x, *a, **k: arr(x).copy(),
    np.iscomplexobj: lambda x: False, np.isrealobj: lambda x: True,
    np.tensordot: None, np.copyto: lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
    np.count_nonzero: lambda a, axis=None, **k: reduce_arr(e_add, np.frompyfunc(lambda v: _num(_truth(v)), 1, 1)(plain(arr(a))), axis, False, 0),
    np.diff: lambda a, n=1, axis=-1, **k: _diff(arr(a), n, axis),
    np.may_share_memory: lambda a, b, **k: np.may_share_memory(plain(a), plain(b)),
    np.shares_memory: lambda a, b, **k: np.shares_memory(plain(a), plain(b)),
}
HANDLED = {k: v for k, v in HANDLED.items() if v is not None}


def _diff(a, n, axis):
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = np.moveaxis(a[1:] - a[:-1], 0, axis)
    return a


def _diag(v, k):
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = plain(full((n, n), 0))
        for i, x in enumerate(v):
            r[i + _bi_max(0, -k), i + _bi_max(0, k)] = x
        return r
    return np.diagonal(v, k).copy()
