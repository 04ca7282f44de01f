"""The module served as `torch` to the code under test: tensors over symbolic values with dtype and device tags."""
import builtins
import math
import operator
import types

import numpy as np

from . import poly, smt, symarr, npshim
from .env import ENV
from .poly import Sym, SymBool, Unsupported
from .symarr import SymArray, arr, plain, is_sym

_bi_sum = builtins.sum


class Dt:
    def __init__(self, name, kind, rank):
        self.name, self.kind, self.rank = name, kind, rank
        self.is_floating_point = kind == "f"
        self.is_complex = False
        self.itemsize = {"float64": 8, "int64": 8, "float32": 4, "int32": 4, "bool": 1, "float16": 2}.get(name, 4)

    def __repr__(self):
        return "torch." + self.name

    def __reduce__(self):
        return "Dt"


float64 = Dt("float64", "f", 9)
float32 = Dt("float32", "f", 8)
float16 = Dt("float16", "f", 7)
bfloat16 = Dt("bfloat16", "f", 7)
int64 = Dt("int64", "i", 5)
int32 = Dt("int32", "i", 4)
int16 = Dt("int16", "i", 3)
int8 = Dt("int8", "i", 2)
uint8 = Dt("uint8", "i", 1)
bool_ = Dt("bool", "b", 0)
DEFAULT = [float32]
CUDA = [False]
DEFAULT_DEVICE = ["cpu"]


def reset_state(cuda=False):
    DEFAULT[0] = float32
    CUDA[0] = cuda
    DEFAULT_DEVICE[0] = "cpu"



class Device:
    def __init__(self, type="cpu", index=None):
        if isinstance(type, Device):
            type, index = type.type, type.index
        if isinstance(type, int):
            type, index = "cuda", type
        if ":" in type:
            type, i = type.split(":")
            index = int(i)
        if type not in ("cpu", "cuda", "meta", "mps", "xpu"):
            raise RuntimeError("Expected one of cpu, cuda, ... device type at start of device string: %s" % type)
        self.type, self.index = type, index

    def __repr__(self):
        return "device(type=%r%s)" % (self.type, "" if self.index is None else ", index=%d" % self.index)

    def __str__(self):
        return self.type if self.index is None else "%s:%d" % (self.type, self.index)

    def __eq__(self, o):
        return isinstance(o, Device) and (self.type, self.index) == (o.type, o.index)

    def __hash__(self):
        return hash((self.type, self.index))


def dev(d):
    """canonical device of a new tensor"""
    if d is None:
        d = DEFAULT_DEVICE[0]
    d = Device(d)
    if d.type == "cuda":
        if not CUDA[0]:
            raise RuntimeError("No CUDA GPUs are available")
        return "cuda:%d" % (d.index or 0)
    return d.type


def ints(shape):
    if len(shape) == 1 and not (isinstance(shape[0], (int, np.integer)) or (isinstance(shape[0], Tensor))):
        shape = tuple(shape[0])
    return tuple(operator.index(s) for s in shape)


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r *= x
        return r

    def __repr__(self):
        return "torch.Size(%s)" % list(self)

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(r, tuple) else r


def infer(a):
    """dtype of plain data"""
    fl = list(plain(arr(a)).flat)
    if not fl:
        return DEFAULT[0]
    kinds = set()
    for x in fl:
        if isinstance(x, (bool, np.bool_, SymBool)):
            kinds.add("b")
        elif isinstance(x, (int, np.integer)):
            kinds.add("i")
        else:
            kinds.add("f")
    if kinds == {"b"}:
        return bool_
    if "f" in kinds:
        return DEFAULT[0]
    return int64


def cast(a, dt, src=None):
    """values of array a in dtype dt (a new array)"""
    p = plain(arr(a))
    if dt.kind == "f":
        f = symarr._num
        if dt.rank < float64.rank and not (src is not None and src.rank <= dt.rank):
            f = symarr.round32
        r = np.empty(p.shape, dtype=object)
        for i, x in np.ndenumerate(p):
            r[i] = f(x) if not (isinstance(x, float) and not math.isfinite(x)) else x
        return r.view(SymArray)
    if dt.kind == "b":
        r = np.empty(p.shape, dtype=object)
        for i, x in np.ndenumerate(p):
            r[i] = symarr._truth(x)
        return r.view(SymArray)
    r = np.empty(p.shape, dtype=object)
    from .libs import b_int
    for i, x in np.ndenumerate(p):
        r[i] = x if isinstance(x, int) and not isinstance(x, bool) else b_int(x)
    return r.view(SymArray)


def promote(*ts):
    """result dtype of tensors and Python scalars"""
    best = {2: None, 1: None, 0: None}
    for t in ts:
        if isinstance(t, Tensor):
            lv = 2 if t.a.ndim else 1
            d = t.dtype
        elif isinstance(t, np.ndarray):
            lv, d = 2, infer(t)
            if d is DEFAULT[0]:
                d = float64
        else:
            lv = 0
            d = bool_ if isinstance(t, (bool, SymBool)) else (int64 if isinstance(t, (int, np.integer)) else DEFAULT[0])
        b = best[lv]
        if b is None or d.rank > b.rank:
            best[lv] = d
    order = {"b": 0, "i": 1, "f": 2}
    res = None
    for lv in (2, 1, 0):
        d = best[lv]
        if d is None:
            continue
        if res is None or order[d.kind] > order[res.kind]:
            if lv == 0 and res is not None and d.kind == "f":
                d = DEFAULT[0]
            res = d
    return res or DEFAULT[0]


def common_device(ts):
    dim = [t for t in ts if isinstance(t, Tensor) and t.a.ndim]
    zero = [t for t in ts if isinstance(t, Tensor) and not t.a.ndim]
    if dim:
        ds = {t.dev for t in dim}
        if len(ds) > 1:
            raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s!" % " and ".join(sorted(ds)))
        d = ds.pop()
        for z in zero:
            if z.dev != d and z.dev != "cpu":
                raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s and %s!" % (d, z.dev))
        return d
    ds = {t.dev for t in zero}
    if len(ds) > 1:
        ds.discard("cpu")
        if len(ds) > 1:
            raise RuntimeError("Expected all tensors to be on the same device")
    return ds.pop() if ds else dev(None)


def raw(x):
    return x.a if isinstance(x, Tensor) else x


def mk(a, dt, device):
    if isinstance(a, np.ndarray):
        a = a if isinstance(a, SymArray) else (a.view(SymArray) if a.dtype == object else arr(a))
    else:
        a = arr(a)
    return Tensor(a, dt, device)


def apply(u, *xs, dt=None, out=None):
    for x in xs:
        if not isinstance(x, (Tensor, Sym, SymBool, int, float, bool, np.generic)):
            if isinstance(x, np.ndarray) and x.ndim == 0:
                continue
            raise TypeError("unsupported operand type(s) for tensor operation: %s" % type(x).__name__)
    d = common_device(xs)
    t = dt or promote(*xs)
    r = symarr.apply_ufunc(u, "__call__", [arr(raw(x)) for x in xs], {})
    if out is not None:
        out.a[...] = r
        return out
    return mk(r, t, d)


def fl(x):
    """floating dtype of a result computed from x"""
    d = promote(x)
    return d if d.kind == "f" else DEFAULT[0]


def _cmp(u):
    def f(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = from_numpy(o)
        return apply(u, self, o, dt=bool_)
    return f


def _bin(u, rev=False, dt=None):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            o = from_numpy(arr(o))
        if not isinstance(o, (Tensor, Sym, SymBool, int, float, np.generic, np.ndarray)):
            return NotImplemented
        xs = (o, self) if rev else (self, o)
        d = dt
        if u is np.true_divide:
            d = promote(*xs)
            d = d if d.kind == "f" else DEFAULT[0]
        return apply(u, *xs, dt=d)
    return f


def _ibin(u):
    def f(self, o):
        if isinstance(o, Tensor) and o.a.ndim and o.dev != self.dev:
            raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s and %s!" % (self.dev, o.dev))
        r = symarr.apply_ufunc(u, "__call__", [self.a, arr(raw(o))], {})
        if np.shape(r) != self.a.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(self.a.shape), list(np.shape(r))))
        self._store(Ellipsis, r, promote(self, o))
        return self
    return f


def _dimarg(dim):
    if dim is None:
        return None
    if isinstance(dim, (list, tuple)):
        return tuple(operator.index(d) for d in dim) if len(dim) else None
    return operator.index(dim)


class _MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


class _Both(tuple):
    min = property(lambda s: s[0])
    max = property(lambda s: s[1])


class Tensor:
    __array_priority__ = 3000.0
    __symtensor__ = True
    origin = None          # the tensor this one is a conversion of
    constant = False       # filled with zeros and ones, and never written to

    def __init__(self, a, dt, device):
        self.a = a
        self.dtype = dt
        self.dev = device
        self.requires_grad = False
        self.grad = None
        ENV.made(self)

    # ---- identity
    def __symarray__(self):
        return self.a

    def new_from(self, a):
        a = a if isinstance(a, SymArray) else arr(a)
        return Tensor(a, self.dtype if self.dtype.kind == "f" else infer(a), self.dev)

    def like(self, a, dt=None):
        return mk(a, dt or self.dtype, self.dev)

    @property
    def device(self):
        return Device(self.dev)

    @property
    def shape(self):
        return Size(self.a.shape)

    def size(self, dim=None):
        return Size(self.a.shape) if dim is None else self.a.shape[operator.index(dim)]

    def dim(self):
        return self.a.ndim

    ndimension = dim

    @property
    def ndim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    nelement = numel

    def element_size(self):
        return self.dtype.itemsize

    def __len__(self):
        if not self.a.ndim:
            raise TypeError("len() of a 0-d tensor")
        return self.a.shape[0]

    def __iter__(self):
        if not self.a.ndim:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "tensor(%r)" % (self.a,)

    is_cuda = property(lambda s: s.dev.startswith("cuda"))
    is_leaf = True

    # ---- scalars
    def item(self):
        if self.a.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self.a.size)
        return plain(self.a).reshape(-1)[0]

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(symarr._truth(self.item()))

    def __index__(self):
        if self.a.size != 1 or self.dtype.kind == "f":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return operator.index(self.item())

    def __int__(self):
        from .libs import b_int
        return b_int(self.item())

    def __float__(self):
        return float(self.item())

    def tolist(self):
        return self.a.tolist()

    def __array__(self, *a, **k):
        return plain(self.a)

    def numpy(self, *a, **k):
        if self.dev != "cpu":
            raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % self.dev)
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if self.dtype.kind == "i":
            return plain(self.a).astype(int)
        return self.a

    # ---- indexing
    def _k(self, k):
        if isinstance(k, tuple):
            return tuple(self._k(i) for i in k)
        if isinstance(k, list):
            return [self._k(i) for i in k]
        if isinstance(k, slice):
            g = lambda v: None if v is None else operator.index(v)
            if k.step is not None and operator.index(k.step) <= 0:
                raise ValueError("step must be greater than zero")
            return slice(g(k.start), g(k.stop), g(k.step))
        if isinstance(k, Tensor):
            if k.dtype.kind == "f":
                raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
            return k.a if k.a.ndim else (operator.index(k.item()) if k.dtype.kind != "b" else bool(k))
        return k

    def __getitem__(self, k):
        r = self.a[self._k(k)]
        if isinstance(r, SymArray) and np.shares_memory(r.view(np.ndarray), self.a.view(np.ndarray)):
            return Tensor(r, self.dtype, self.dev)
        if isinstance(r, np.ndarray):
            return mk(r, self.dtype, self.dev)
        # a 0-d view: keep the memory shared
        v = self.a.view(np.ndarray)[self._k0(k)]
        return Tensor(v.view(SymArray), self.dtype, self.dev)

    def _k0(self, k):
        k = symarr._key(self._k(k))
        k = k if isinstance(k, tuple) else (k,)
        if any(i is Ellipsis for i in k):
            return k
        return k + (Ellipsis,)

    def _store(self, k, v, src=None):
        self.constant = False
        if self.dtype.kind == "f" and self.dtype.rank < float64.rank and (src is None or src.rank > self.dtype.rank or src.kind != "f"):
            v = cast(arr(v), self.dtype)
        elif self.dtype.kind == "i":
            v = cast(arr(v), self.dtype)
        elif self.dtype.kind == "f":
            v = np.frompyfunc(lambda x: x if isinstance(x, float) and not math.isfinite(x) else symarr._num(x), 1, 1)(plain(arr(v)))
        self.a[k] = v

    def __setitem__(self, k, v):
        ENV.stored(self, v)
        src = v.dtype if isinstance(v, Tensor) else None
        if isinstance(v, Tensor):
            v = v.a
            # torch squeezes leading singleton dimensions of the value
        elif isinstance(v, (list, tuple)):
            raise TypeError("can't assign a %s to a torch tensor" % type(v).__name__)
        self._store(self._k(k), v, src)

    # ---- arithmetic
    __add__, __radd__, __iadd__ = _bin(np.add), _bin(np.add, True), _ibin(np.add)
    __sub__, __rsub__, __isub__ = _bin(np.subtract), _bin(np.subtract, True), _ibin(np.subtract)
    __mul__, __rmul__, __imul__ = _bin(np.multiply), _bin(np.multiply, True), _ibin(np.multiply)
    __truediv__, __rtruediv__, __itruediv__ = _bin(np.true_divide), _bin(np.true_divide, True), _ibin(np.true_divide)
    __pow__, __rpow__, __ipow__ = _bin(np.power), _bin(np.power, True), _ibin(np.power)
    __floordiv__, __rfloordiv__ = _bin(np.floor_divide), _bin(np.floor_divide, True)
    __mod__ = _bin(np.remainder)
    __and__, __or__, __xor__ = _bin(np.logical_and, dt=bool_), _bin(np.logical_or, dt=bool_), _bin(np.logical_xor, dt=bool_)
    __rand__, __ror__ = _bin(np.logical_and, True, bool_), _bin(np.logical_or, True, bool_)
    __lt__, __le__, __gt__, __ge__ = _cmp(np.less), _cmp(np.less_equal), _cmp(np.greater), _cmp(np.greater_equal)
    __eq__, __ne__ = _cmp(np.equal), _cmp(np.not_equal)
    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    def __neg__(self):
        return apply(np.negative, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return apply(np.absolute, self)

    def __invert__(self):
        return apply(np.logical_not, self, dt=bool_)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o if isinstance(o, Tensor) else from_numpy(arr(o)), self)

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        if method != "__call__":
            return NotImplemented
        ts = [x for x in ins if isinstance(x, Tensor)]
        for t in ts:
            if t.dev != "cpu":
                raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % t.dev)
        out = kw.get("out")
        r = symarr.apply_ufunc(ufunc, method, [arr(raw(x)) for x in ins], {})
        if out is not None:
            out[0][...] = r
            return out[0]
        if any(isinstance(x, np.ndarray) and x.ndim for x in ins) and not isinstance(ins[0], Tensor):
            return r if isinstance(r, np.ndarray) else r
        return mk(r, bool_ if ufunc in symarr.BOOLOPS else fl(ts[0]), ts[0].dev)

    def __array_function__(self, func, types_, args, kwargs):
        conv = lambda x: x.numpy() if isinstance(x, Tensor) else ([conv(i) for i in x] if isinstance(x, (list, tuple)) else x)
        return func(*[conv(x) for x in args], **{k: conv(v) for k, v in kwargs.items()})

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    subtract = sub

    def mul(self, o):
        return self * o

    multiply = mul

    def div(self, o):
        return self / o

    divide = true_divide = div

    def pow(self, o):
        return self ** o

    def neg(self):
        return -self

    negative = neg

    def _inp(self, r):
        self._store(Ellipsis, r.a if isinstance(r, Tensor) else r, r.dtype if isinstance(r, Tensor) else None)
        return self

    def add_(self, o, alpha=1):
        self += (o if alpha == 1 else o * alpha)
        return self

    def sub_(self, o, alpha=1):
        self -= (o if alpha == 1 else o * alpha)
        return self

    def mul_(self, o):
        self *= o
        return self

    def div_(self, o):
        self /= o
        return self

    def neg_(self):
        return self._inp(-self)

    def exp_(self):
        return self._inp(self.exp())

    def sqrt_(self):
        return self._inp(self.sqrt())

    def clamp_(self, min=None, max=None):
        return self._inp(self.clamp(min, max))

    def pow_(self, o):
        return self._inp(self ** o)

    def abs_(self):
        return self._inp(self.abs())

    def square_(self):
        return self._inp(self.square())

    def reciprocal_(self):
        return self._inp(self.reciprocal())

    def rsqrt_(self):
        return self._inp(self.rsqrt())

    def log_(self):
        return self._inp(self.log())

    def lerp_(self, o, w):
        return self._inp(self.lerp(o, w))

    def addcmul_(self, a, b, value=1):
        return self._inp(self.addcmul(a, b, value))

    def addcdiv_(self, a, b, value=1):
        return self._inp(self.addcdiv(a, b, value))

    def addmm_(self, a, b, beta=1, alpha=1):
        return self._inp(self.addmm(a, b, beta, alpha))

    def clamp_min(self, v):
        return self.clamp(v)

    def clamp_max(self, v):
        return self.clamp(None, v)

    def clamp_min_(self, v):
        return self._inp(self.clamp(v))

    def clamp_max_(self, v):
        return self._inp(self.clamp(None, v))

    def masked_fill(self, mask, v):
        return where(mask, v if isinstance(v, Tensor) else full((), v, dtype=self.dtype, device=self.dev), self)

    def masked_fill_(self, mask, v):
        return self._inp(self.masked_fill(mask, v))

    def masked_select(self, mask):
        return self[mask]

    def where(self, c, o):
        return where(c, self, o)

    def fill_diagonal_(self, v, wrap=False):
        self.diagonal()._store(Ellipsis, raw(v))
        self.constant = False
        return self

    def index_copy_(self, dim, idx, src):
        return self._at(dim, idx, lambda a, b: b, src)

    def index_add_(self, dim, idx, src, alpha=1):
        return self._at(dim, idx, lambda a, b: a + b, src * alpha if alpha != 1 else src)

    def index_fill_(self, dim, idx, v):
        for i in plain(idx.a).flat:
            self.select(dim, int(i)).fill_(v)
        return self

    def _at(self, dim, idx, f, src):
        for n, i in enumerate(plain(idx.a).flat):
            t = self.select(dim, int(i))
            t._inp(f(t, src.select(dim, n)))
        self.constant = False
        return self

    def index_add(self, dim, idx, src, alpha=1):
        return self.clone().index_add_(dim, idx, src, alpha)

    def index_copy(self, dim, idx, src):
        return self.clone().index_copy_(dim, idx, src)

    def index_fill(self, dim, idx, v):
        return self.clone().index_fill_(dim, idx, v)

    def copy_(self, o, non_blocking=False):
        ENV.stored(self, o)
        self._store(Ellipsis, o.a, o.dtype)
        return self

    def fill_(self, v):
        self._store(Ellipsis, raw(v))
        return self

    def zero_(self):
        self._store(Ellipsis, 0)
        return self

    # ---- element functions
    def exp(self):
        return apply(np.exp, self, dt=fl(self))

    def log(self):
        return apply(np.log, self, dt=fl(self))

    def sqrt(self):
        return apply(np.sqrt, self, dt=fl(self))

    def rsqrt(self):
        return 1 / self.sqrt()

    def square(self):
        return apply(np.square, self)

    def abs(self):
        return apply(np.absolute, self)

    absolute = abs

    def sin(self):
        return apply(np.sin, self, dt=fl(self))

    def cos(self):
        return apply(np.cos, self, dt=fl(self))

    def tanh(self):
        return apply(np.tanh, self, dt=fl(self))

    def sign(self):
        return apply(np.sign, self)

    def reciprocal(self):
        return 1 / self

    def round(self, decimals=0):
        return self.like(arr(self.a.round(decimals)))

    def floor(self):
        return apply(np.floor, self)

    def ceil(self):
        return apply(np.ceil, self)

    def isnan(self):
        return apply(np.isnan, self, dt=bool_)

    def isinf(self):
        return apply(np.isinf, self, dt=bool_)

    def isfinite(self):
        return apply(np.isfinite, self, dt=bool_)

    def logical_not(self):
        return apply(np.logical_not, self, dt=bool_)

    def logical_and(self, o):
        return apply(np.logical_and, self, o, dt=bool_)

    def logical_or(self, o):
        return apply(np.logical_or, self, o, dt=bool_)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = apply(np.maximum, r, min)
        if max is not None:
            r = apply(np.minimum, r, max)
        return r

    clip = clamp

    def maximum(self, o):
        return apply(np.maximum, self, o)

    def minimum(self, o):
        return apply(np.minimum, self, o)

    # ---- reductions
    def _red(self, f, dim, keepdim, dt=None):
        r = f(self.a, _dimarg(dim), keepdim)
        return self.like(r if isinstance(r, np.ndarray) else arr(r), dt)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None, **k):
        dim = axis if dim is None else dim
        t = dtype or (self.dtype if self.dtype.kind == "f" else int64)
        return self._red(lambda a, d, kd: symarr.reduce_arr(symarr.e_add, a, d, kd, 0), dim, keepdim, t)

    def prod(self, dim=None, keepdim=False, dtype=None, **k):
        return self._red(lambda a, d, kd: symarr.reduce_arr(symarr.e_mul, a, d, kd, 1), dim, keepdim)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None, **k):
        dim = axis if dim is None else dim
        if self.dtype.kind != "f" and dtype is None:
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
        return self._red(lambda a, d, kd: symarr.mean(a, d, kd), dim, keepdim, dtype)

    def _dd(self, unbiased, correction):
        return (1 if unbiased is None or unbiased else 0) if correction is None else operator.index(correction)

    def var(self, dim=None, unbiased=None, keepdim=False, correction=None, axis=None, **k):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        dim = axis if dim is None else dim
        dd = self._dd(unbiased, correction)
        return self._red(lambda a, d, kd: symarr.var(a, d, dd, kd), dim, keepdim)

    def std(self, dim=None, unbiased=None, keepdim=False, correction=None, axis=None, **k):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        dim = axis if dim is None else dim
        dd = self._dd(unbiased, correction)
        return self._red(lambda a, d, kd: symarr.std(a, d, dd, kd), dim, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._red(lambda a, d, kd: symarr.reduce_minmax(poly.maximum, a, d, kd), dim, keepdim)

    def amin(self, dim=None, keepdim=False):
        return self._red(lambda a, d, kd: symarr.reduce_minmax(poly.minimum, a, d, kd), dim, keepdim)

    def aminmax(self, dim=None, keepdim=False):
        return _Both((self.amin(dim, keepdim), self.amax(dim, keepdim)))

    def max(self, dim=None, keepdim=False, axis=None, **k):
        dim = axis if dim is None else dim
        if isinstance(dim, Tensor):
            return self.maximum(dim)
        if dim is None:
            return self.amax()
        return _MinMax((self.amax(dim, keepdim), None))

    def min(self, dim=None, keepdim=False, axis=None, **k):
        dim = axis if dim is None else dim
        if isinstance(dim, Tensor):
            return self.minimum(dim)
        if dim is None:
            return self.amin()
        return _MinMax((self.amin(dim, keepdim), None))

    def quantile(self, q, dim=None, keepdim=False, **k):
        q = q.item() if isinstance(q, Tensor) else q
        return self._red(lambda a, d, kd: symarr.h_quantile(a, q, d, keepdims=kd), dim, keepdim)

    def median(self, dim=None, keepdim=False):
        # torch: the lower of the two middle ones
        def g(xs):
            return symarr._sorted_list(xs)[(len(xs) - 1) // 2]
        r = self._red(lambda a, d, kd: symarr._reduce(g, a, d, kd), dim, keepdim)
        return r if dim is None else _MinMax((r, None))

    def diff(self, n=1, dim=-1, **k):
        return self.like(symarr._diff(self.a, n, dim))

    def split(self, n, dim=0):
        size = self.a.shape[dim]
        ns = [min(n, size - i) for i in range(0, size, n)] if isinstance(n, int) else list(n)
        out, i = [], 0
        for m in ns:
            out.append(self.narrow(dim, i, m))
            i += m
        return tuple(out)

    def is_contiguous(self, **k):
        return self.a.flags.c_contiguous

    def tril(self, k=0):
        return self.like(arr(np.where(np.tri(*self.a.shape[-2:], k=k, dtype=bool), plain(self.a), Sym.of(0))))

    def triu(self, k=0):
        return self.like(arr(np.where(~np.tri(*self.a.shape[-2:], k=k - 1, dtype=bool), plain(self.a), Sym.of(0))))

    def expm1(self):
        return apply(np.exp, self, dt=fl(self)) - 1

    def log1p(self):
        return apply(np.log, self + 1, dt=fl(self))

    def sigmoid(self):
        return 1 / (1 + apply(np.exp, -self, dt=fl(self)))

    def repeat_interleave(self, n, dim=None, **k):
        return self.like(arr(np.repeat(plain(self.a), n if isinstance(n, int) else [int(i) for i in arr(raw(n))], axis=dim)))

    def movedim(self, a, b):
        return self._v(np.moveaxis(plain(self.a), a, b))

    moveaxis = movedim

    def lerp(self, o, w):
        return self + (o - self) * w

    def addcmul(self, a, b, value=1):
        return self + a * b * value

    def addcdiv(self, a, b, value=1):
        return self + a / b * value

    def addmm(self, a, b, beta=1, alpha=1):
        return self * beta + matmul(a, b) * alpha

    addmv = addbmm = baddbmm = addmm

    def take_along_dim(self, idx, dim=None):
        return self.like(arr(np.take_along_axis(plain(self.a), np.asarray(plain(idx.a), dtype=int), dim)))

    def gather(self, dim, index, **k):
        return self.like(arr(np.take_along_axis(plain(self.a), np.asarray(plain(index.a), dtype=int), dim)))

    def count_nonzero(self, dim=None):
        r = np.count_nonzero(self.a, axis=dim)
        return mk(arr(r), int64, self.dev)

    def nansum(self, dim=None, keepdim=False, **k):
        return self.sum(dim, keepdim)

    def nan_to_num(self, *a, **k):
        return self.clone()

    def logaddexp(self, o):
        return apply(np.log, apply(np.exp, self) + apply(np.exp, o))

    def kron(self, o):
        return self.like(arr(np.kron(plain(self.a), plain(o.a))))

    def diag_embed(self):
        n = self.a.shape[-1]
        return self.unsqueeze(-1) * eye(n, dtype=self.dtype, device=self.dev)

    def argmax(self, dim=None, keepdim=False):
        return self.like(arr(self.a.argmax(_dimarg(dim))), int64)

    def argmin(self, dim=None, keepdim=False):
        return self.like(arr(self.a.argmin(_dimarg(dim))), int64)

    def any(self, dim=None, keepdim=False):
        return self._red(lambda a, d, kd: symarr.reduce_arr(symarr.e_or, a, d, kd, False), dim, keepdim, bool_)

    def all(self, dim=None, keepdim=False):
        return self._red(lambda a, d, kd: symarr.reduce_arr(symarr.e_and, a, d, kd, True), dim, keepdim, bool_)

    def norm(self, p=2, dim=None, keepdim=False, **k):
        return self._red(lambda a, d, kd: symarr.norm(a, None if p in (2, "fro") else p, d, kd), dim, keepdim)

    def logsumexp(self, dim, keepdim=False):
        return self.exp().sum(dim, keepdim).log()

    def softmax(self, dim=None, dtype=None):
        e = self.exp()
        return e / e.sum(dim, True)

    def cumsum(self, dim, **k):
        return self.like(symarr.wrap(np.cumsum(plain(self.a), axis=_dimarg(dim))))

    def trace(self):
        return self.like(arr(symarr._sumlist([plain(self.a)[i, i] for i in range(self.a.shape[0])])))

    # ---- shapes
    @property
    def T(self):
        return Tensor(self.a.T, self.dtype, self.dev)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def t(self):
        if self.a.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions, but self is %dD" % self.a.ndim)
        return Tensor(self.a.T, self.dtype, self.dev)

    def _v(self, a):
        return Tensor(a if isinstance(a, SymArray) else plain(a).view(SymArray), self.dtype, self.dev)

    def transpose(self, i, j):
        return self._v(np.swapaxes(self.a.view(np.ndarray), operator.index(i), operator.index(j)))

    swapaxes = transpose

    def permute(self, *d):
        return self._v(self.a.view(np.ndarray).transpose(ints(d)))

    def reshape(self, *s):
        return self._v(self.a.view(np.ndarray).reshape(ints(s)))

    def view(self, *s):
        a = self.a.view(np.ndarray)
        r = a.reshape(ints(s))
        if a.size and not np.shares_memory(a, r):
            raise RuntimeError("view size is not compatible with input tensor's size and stride (at least one dimension "
                               "spans across two contiguous subspaces). Use .reshape(...) instead.")
        return self._v(r)

    def flatten(self, *a):
        return self._v(self.a.view(np.ndarray).reshape(-1))

    ravel = flatten

    def squeeze(self, dim=None):
        a = self.a.view(np.ndarray)
        if dim is None:
            return self._v(a.squeeze())
        d = operator.index(dim)
        return self._v(a.squeeze(d) if a.shape[d] == 1 else a)

    def unsqueeze(self, dim):
        d = operator.index(dim)
        return self._v(np.expand_dims(self.a.view(np.ndarray), d if d >= 0 else d + self.a.ndim + 1))

    def expand(self, *s):
        s = list(ints(s))
        off = len(s) - self.a.ndim
        for i in range(self.a.ndim):
            if s[off + i] == -1:
                s[off + i] = self.a.shape[i]
        return self._v(np.broadcast_to(self.a.view(np.ndarray), s))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *s):
        return self._v(np.tile(self.a.view(np.ndarray), ints(s)))

    def tile(self, *s):
        return self._v(np.tile(self.a.view(np.ndarray), ints(s)))

    def diag(self, k=0):
        return self.like(symarr.wrap(symarr._diag(plain(self.a), k)))

    def diagonal(self, offset=0, dim1=0, dim2=1, **k):
        a = self.a.view(np.ndarray)
        d = np.diagonal(a, offset, dim1, dim2)
        if a.flags.writeable:
            d = np.lib.stride_tricks.as_strided(d, d.shape, d.strides, writeable=True) if a.ndim != 2 else \
                _diag_view(a, offset)
        return self._v(d)

    def select(self, dim, i):
        return self[(slice(None),) * operator.index(dim) + (operator.index(i),)]

    def narrow(self, dim, s, n):
        return self[(slice(None),) * operator.index(dim) + (slice(s, s + n),)]

    def flip(self, *d):
        return self._v(np.flip(self.a.view(np.ndarray), ints(d)).copy())

    def roll(self, s, dims=None):
        return self._v(np.roll(self.a.view(np.ndarray), s, dims))

    def index_select(self, dim, idx):
        return self.like(symarr.wrap(np.take(plain(self.a), plain(idx.a).astype(int), axis=operator.index(dim))))

    def sort(self, dim=-1, **k):
        return _MinMax((self.like(np.sort(self.a, axis=dim)), None))

    def unbind(self, dim=0):
        return tuple(self.select(dim, i) for i in range(self.a.shape[dim]))

    def chunk(self, n, dim=0):
        return tuple(self._v(x) for x in np.array_split(self.a.view(np.ndarray), n, axis=dim))

    def reshape_as(self, o):
        return self.reshape(o.shape)

    def view_as(self, o):
        return self.view(o.shape)

    def broadcast_to(self, *s):
        return self.expand(*s)

    def fliplr(self):
        return self.flip(1)

    def flipud(self):
        return self.flip(0)

    def unflatten(self, dim, sizes):
        d = operator.index(dim) % self.a.ndim
        return self.reshape(self.a.shape[:d] + tuple(ints((sizes,))) + self.a.shape[d + 1:])

    def _meta(self, a):
        self.a = a.view(SymArray)
        return self

    def unsqueeze_(self, dim):
        return self._meta(self.unsqueeze(dim).a)

    def squeeze_(self, dim=None):
        return self._meta(self.squeeze(dim).a)

    def t_(self):
        return self._meta(self.t().a)

    def transpose_(self, i, j):
        return self._meta(self.transpose(i, j).a)

    swapaxes_ = swapdims_ = transpose_

    def swapdims(self, i, j):
        return self.transpose(i, j)

    def resize_(self, *s):
        raise Unsupported("Tensor.resize_")

    def data_ptr(self):
        return plain(self.a).__array_interface__["data"][0]

    def storage_offset(self):
        b = plain(self.a)
        while isinstance(b.base, np.ndarray):
            b = b.base
        return (self.data_ptr() - np.asarray(b).__array_interface__["data"][0]) // self.a.itemsize

    def is_set_to(self, o):
        return self.data_ptr() == o.data_ptr() and self.shape == o.shape and self.stride() == o.stride()

    def stride(self, dim=None):
        st = tuple(x // self.a.itemsize for x in self.a.strides)
        return st if dim is None else st[dim]

    def take(self, idx):
        return self.like(arr(plain(self.a).reshape(-1)[plain(idx.a).astype(int)]))

    def argsort(self, dim=-1, descending=False, stable=False):
        r = np.argsort(self.a, axis=dim)
        return self.like(arr(np.flip(r, dim) if descending else r), int64)

    def outer(self, o):
        return self.unsqueeze(1) * o.unsqueeze(0)

    ger = outer

    def vdot(self, o):
        return matmul(self, o)

    def inner(self, o):
        return self * o if not (self.a.ndim and o.a.ndim) else matmul(self, o.transpose(-1, -2) if o.a.ndim > 1 else o)

    def dist(self, o, p=2):
        return (self - o).norm(p)

    def cumprod(self, dim, **k):
        return self.like(symarr.wrap(np.cumprod(plain(self.a), axis=_dimarg(dim))))

    def cov(self, correction=1, **k):
        x = self if self.a.ndim > 1 else self.unsqueeze(0)
        c = x - x.mean(1, True)
        r = matmul(c, c.t()) / (x.a.shape[1] - correction)
        return r if self.a.ndim > 1 else r.reshape(())

    def cross(self, o, dim=-1):
        raise Unsupported("Tensor.cross")

    def nonzero(self, as_tuple=False):
        ix = symarr.h_where(self.a)
        return tuple(tensor(i) for i in ix) if as_tuple else stack([tensor(i) for i in ix], 1)

    def new(self, *s, **k):
        raise Unsupported("Tensor.new")

    # ---- copies and conversions
    def clone(self, **k):
        return self._from(Tensor(self.a.copy(), self.dtype, self.dev))

    def detach(self):
        return self._from(Tensor(self.a, self.dtype, self.dev))

    data = property(lambda s: Tensor(s.a, s.dtype, s.dev))

    def contiguous(self, **k):
        return self

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def cpu(self):
        return self if self.dev == "cpu" else self.to("cpu")

    def cuda(self, device=None, **k):
        return self.to("cuda" if device is None else device)

    def to(self, *args, dtype=None, device=None, copy=False, non_blocking=False, **k):
        for a in args:
            if isinstance(a, Dt):
                dtype = a
            elif isinstance(a, Tensor):
                dtype, device = a.dtype, a.dev
            elif isinstance(a, (str, Device, int)) and not isinstance(a, bool):
                device = a
            elif a is None or isinstance(a, bool):
                pass
            else:
                raise TypeError("to() received an invalid argument %r" % (a,))
        d = self.dev if device is None else dev(device)
        t = dtype or self.dtype
        if d == self.dev and t is self.dtype and not copy:
            return self
        return self._from(Tensor(cast(self.a, t, self.dtype) if t is not self.dtype else self.a.copy(), t, d))

    def _from(self, r):
        r.origin = self
        r.constant = getattr(self, "constant", False)
        return r

    def type(self, dt=None, **k):
        return repr(self.dtype) if dt is None else self.to(dt)

    def double(self):
        return self.to(float64)

    def float(self):
        return self.to(float32)

    def half(self):
        return self.to(float16)

    def int(self):
        return self.to(int32)

    def long(self):
        return self.to(int64)

    def bool(self):
        return self.to(bool_)

    def type_as(self, o):
        return self.to(o.dtype, device=o.dev)

    def is_floating_point(self):
        return self.dtype.kind == "f"

    def new_zeros(self, *s, dtype=None, device=None):
        return zeros(*s, dtype=dtype or self.dtype, device=device or self.dev)

    def new_ones(self, *s, dtype=None, device=None):
        return ones(*s, dtype=dtype or self.dtype, device=device or self.dev)

    def new_empty(self, *s, dtype=None, device=None):
        return empty(*s, dtype=dtype or self.dtype, device=device or self.dev)

    def new_full(self, s, v, dtype=None, device=None):
        return full(s, v, dtype=dtype or self.dtype, device=device or self.dev)

    def new_tensor(self, x, dtype=None, device=None):
        return tensor(x, dtype=dtype or self.dtype, device=device or self.dev)

    # ---- linear algebra
    def matmul(self, o):
        return matmul(self, o)

    mm = bmm = mv = dot = matmul

    def inverse(self):
        return linalg_inv(self)

    def det(self):
        return self.like(arr(symarr.det(self.a)))

    # ---- random
    def normal_(self, mean=0, std=1, generator=None):
        xi = ENV.normals(self.a.shape)
        ENV.draw_tags.append(("normal", self.dtype.name, self.dev, self.a.size))
        r = arr(raw(mean)) + arr(raw(std)) * xi
        self.a[...] = r
        return self

    def uniform_(self, a=0, b=1, generator=None):
        r = ENV.uniforms(self.a.shape)
        ENV.draw_tags.append(("uniform", self.dtype.name, self.dev, self.a.size))
        self.a[...] = arr(raw(a)) + (arr(raw(b)) - arr(raw(a))) * r
        return self

    def __deepcopy__(self, memo):
        return self.clone()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Tensor.%s" % n)


def _diag_view(a, k):
    n, m = a.shape
    i, j = (0, k) if k >= 0 else (-k, 0)
    d = builtins.max(0, builtins.min(n - i, m - j))
    return np.lib.stride_tricks.as_strided(a[i:, j:], (d,), (a.strides[0] + a.strides[1],), writeable=True) if d else np.empty(0, dtype=object)


class Chol(Tensor):
    """the Cholesky factor of a matrix: only what is solved with it has a model"""

    def __init__(self, of, upper):
        Tensor.__init__(self, of.a, of.dtype, of.dev)
        self.of = of

    def _no(self, *a, **k):
        raise Unsupported("entries of a Cholesky factor")

    __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __matmul__ = __array__ = item = tolist = numpy = diagonal = __iter__ = __setitem__ = \
        __symarray__ = t = transpose = _no
    T = mT = property(_no)


def cholesky(a, upper=False, **k):
    return Chol(a, upper)


def cholesky_solve(b, c, upper=False, **k):
    if not isinstance(c, Chol):
        raise Unsupported("cholesky_solve with a factor from elsewhere")
    return linalg_solve(c.of, b)


def cholesky_inverse(c, upper=False, **k):
    if not isinstance(c, Chol):
        raise Unsupported("cholesky_inverse with a factor from elsewhere")
    return linalg_inv(c.of)


# ---------------------------------------------------------------- creation
def _cr(a, dtype, device, requires_grad=False):
    t = dtype or DEFAULT[0]
    r = Tensor(a, t, dev(device))
    r.requires_grad = bool(requires_grad)
    return r


def _val(v, dt):
    if dt.kind == "b":
        return bool(v)
    if dt.kind == "i":
        return int(v)
    return Sym.of(v)


def _fill(shape, v, dt):
    a = np.empty(shape, dtype=object)
    a[...] = v if isinstance(v, (SymBool,)) or (isinstance(v, float) and not math.isfinite(v)) else _val(v, dt)
    return a.view(SymArray)


def zeros(*s, size=None, dtype=None, device=None, out=None, requires_grad=False, **k):
    s = ints(s if size is None else (size,))
    return _const(_cr(_fill(s, 0, dtype or DEFAULT[0]), dtype, device, requires_grad))


def _const(t):
    t.constant = True
    return t


def ones(*s, size=None, dtype=None, device=None, out=None, requires_grad=False, **k):
    s = ints(s if size is None else (size,))
    return _const(_cr(_fill(s, 1, dtype or DEFAULT[0]), dtype, device, requires_grad))


def empty(*s, size=None, dtype=None, device=None, out=None, requires_grad=False, **k):
    s = ints(s if size is None else (size,))
    dt = dtype or DEFAULT[0]
    if dt.kind != "f":
        return _cr(_fill(s, 0, dt), dtype, device)
    return _cr(ENV.garbage(s), dtype, device, requires_grad)


def full(size, fill_value, dtype=None, device=None, **k):
    v = raw(fill_value)
    v = v.item() if isinstance(v, np.ndarray) else v
    dt = dtype or (bool_ if isinstance(v, bool) else int64 if isinstance(v, int) else DEFAULT[0])
    return _cr(_fill(ints((size,)), v, dt), dt, device)


def _like(f):
    def g(x, *a, dtype=None, device=None, **k):
        k.pop("memory_format", None)
        if f is full:
            return full(x.shape, *a, dtype=dtype or x.dtype, device=device or x.dev)
        return f(tuple(x.shape), dtype=dtype or x.dtype, device=device or x.dev)
    return g


def eye(n, m=None, dtype=None, device=None, **k):
    n = operator.index(n)
    m = n if m is None else operator.index(m)
    dt = dtype or DEFAULT[0]
    a = _fill((n, m), 0, dt)
    for i in range(min(n, m)):
        a.view(np.ndarray)[i, i] = _val(1, dt)
    return _const(_cr(a, dt, device))


def scal(x):
    x = raw(x)
    return x.item() if isinstance(x, np.ndarray) else x


def arange(*a, dtype=None, device=None, start=None, end=None, step=None, **k):
    a = [scal(x) for x in a]
    if end is not None:
        a = [start or 0, end] + ([step] if step is not None else [])
    elif step is not None:
        a = (a if len(a) == 2 else [0] + a) + [step]
    isint = all(isinstance(x, (int, np.integer)) for x in a)
    r = npshim.arange(*a)
    dt = dtype or (int64 if isint else DEFAULT[0])
    r = arr(r)
    return _cr(cast(r, dt, float64 if dt is float64 else None) if dt.kind != "i" or not isint else r, dt, device)


def linspace(start, end, steps=100, dtype=None, device=None, **k):
    dt = dtype or DEFAULT[0]
    return _cr(cast(npshim.linspace(scal(start), scal(end), operator.index(steps)), dt), dt, device)


def tensor(data, dtype=None, device=None, requires_grad=False, **k):
    if isinstance(data, Tensor):
        dt = dtype or data.dtype
        r = Tensor(cast(data.a, dt, data.dtype), dt, data.dev if device is None else dev(device))
    else:
        src = None
        if isinstance(data, np.ndarray):
            src = float64 if (data.dtype == object or data.dtype.kind == "f") else None
            nat = infer(data)
            if nat.kind == "f":
                nat = float64 if not (isinstance(data, SymArray) and data.f32) else float32
        else:
            a = _listdata(data)
            nat = infer(a)
            data = a
        dt = dtype or nat
        a = cast(arr(data), dt, src if dt is float64 else None)
        r = Tensor(a, dt, dev(device))
    if requires_grad:
        if r.dtype.kind != "f":
            raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
        r.requires_grad = True
    return r


def _listdata(x):
    if isinstance(x, (list, tuple)):
        return arr([_listdata(i) if isinstance(i, (list, tuple)) else (scal(i) if isinstance(i, Tensor) else i) for i in x])
    if isinstance(x, (int, float, bool, Sym, SymBool, np.generic)):
        return arr(x.item() if isinstance(x, np.generic) else x)
    if hasattr(x, "__len__") or hasattr(x, "__iter__"):
        return arr(list(x))
    raise TypeError("new(): invalid data type %r" % type(x).__name__)


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor):
        return data.to(dtype=dtype, device=device)
    if isinstance(data, SymArray) and dtype in (None, float64) and infer(data).kind == "f" and dev(device) == "cpu":
        return Tensor(data, float64, "cpu")
    return tensor(data, dtype=dtype, device=device)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if isinstance(a, SymArray) and infer(a).kind == "f":
        return Tensor(a, float64, "cpu")
    return tensor(a)


# ---------------------------------------------------------------- functions
def matmul(a, b, out=None):
    if not (isinstance(a, Tensor) and isinstance(b, Tensor)):
        raise TypeError("matmul(): argument must be Tensor, not %s" % type(b if isinstance(a, Tensor) else a).__name__)
    d = common_device([a, b])
    if a.dtype is not b.dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (a.dtype, b.dtype))
    if not a.a.ndim or not b.a.ndim:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if a.dev != b.dev:
        raise RuntimeError("Expected all tensors to be on the same device")
    r = symarr.matmul_any(a.a, b.a)
    return _out(mk(r if isinstance(r, np.ndarray) else arr(r), a.dtype, d), out)


def _out(r, out):
    if out is None:
        return r
    out._store(Ellipsis, r.a, r.dtype)
    return out


def linalg_inv(a, **k):
    return a.like(symarr.inv(a.a))


def linalg_pinv(a, *r, **k):
    return a.like(symarr.pinv(a.a, *r, **k))


def linalg_solve(a, b, **k):
    common_device([a, b])
    return a.like(symarr.solve(a.a, b.a))


def einsum(spec, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    d = common_device(ops)
    r = symarr.einsum(spec, *[o.a for o in ops])
    return mk(r if isinstance(r, np.ndarray) else arr(r), promote(*ops), d)


def cat(ts, dim=0, axis=None, out=None, **k):
    dim = dim if axis is None else axis
    d = common_device(ts)
    return _out(mk(symarr.wrap(np.concatenate([plain(t.a) for t in ts], axis=operator.index(dim))), promote(*ts), d), out)


def stack(ts, dim=0, out=None, **k):
    ts = list(ts)
    ds = {t.dev for t in ts}
    if len(ds) > 1:
        raise RuntimeError("Expected all tensors to be on the same device")
    return _out(mk(symarr.arr(np.stack([plain(t.a) for t in ts], axis=operator.index(dim))), promote(*ts), ds.pop()), out)


def where(c, x=None, y=None):
    if x is None:
        return tuple(tensor(i) for i in symarr.h_where(c.a))
    d = common_device([c, x, y])
    r = symarr.h_where(c.a, arr(raw(x)), arr(raw(y)))
    return mk(r if isinstance(r, np.ndarray) else arr(r), promote(x, y), d)


def cdist(a, b, p=2.0, **k):
    from .libs import cdist as cd
    d = common_device([a, b])
    return mk(cd(a.a, b.a, "minkowski" if p not in (2, 2.0) else "euclidean", p=int(p)), promote(a, b), d)


def rand(*s, size=None, dtype=None, device=None, generator=None, **k):
    s = ints(s if size is None else (size,))
    t = _cr(ENV.uniforms(s), dtype, device)
    ENV.draw_tags.append(("uniform", t.dtype.name, t.dev, t.a.size))
    return t


def randn(*s, size=None, dtype=None, device=None, generator=None, **k):
    s = ints(s if size is None else (size,))
    t = _cr(ENV.normals(s), dtype, device)
    ENV.draw_tags.append(("normal", t.dtype.name, t.dev, t.a.size))
    return t


def normal(mean=0.0, std=1.0, size=None, dtype=None, device=None, generator=None, **k):
    if isinstance(mean, Tensor) or isinstance(std, Tensor):
        if size is None:
            m = mean if isinstance(mean, Tensor) else std
            sh = np.broadcast_shapes(np.shape(arr(raw(mean))), np.shape(arr(raw(std))))
            d, t = common_device([mean, std]), promote(mean, std)
        else:
            raise TypeError("normal() received an invalid combination of arguments")
    else:
        sh, d, t = ints((size,)), dev(device), dtype or DEFAULT[0]
    ENV.draw_tags.append(("normal", t.name, d, int(np.prod(sh))))
    return mk(arr(arr(raw(mean)) + arr(raw(std)) * ENV.normals(sh)), t, d)


class Uniform:
    def __init__(self, low, high, validate_args=None):
        lo, hi = low, high
        if not isinstance(lo, Tensor):
            lo = tensor(lo) if not isinstance(hi, Tensor) else full(tuple(hi.shape), lo, dtype=hi.dtype, device=hi.dev)
        if not isinstance(hi, Tensor):
            hi = full(tuple(lo.shape), hi, dtype=lo.dtype, device=lo.dev)
        for a, b in zip(np.broadcast_arrays(plain(lo.a), plain(hi.a))[0].flat, np.broadcast_arrays(plain(lo.a), plain(hi.a))[1].flat):
            if symarr._num(a).same(symarr._num(b)):
                raise ValueError("Expected parameter low to be less than high of Uniform")
        common_device([lo, hi])
        self.low, self.high = lo, hi

    def sample(self, sample_shape=()):
        if isinstance(sample_shape, Tensor) and sample_shape.a.ndim == 0:
            raise TypeError("sample_shape must be a sequence")
        sh = ints((sample_shape,)) + np.broadcast_shapes(self.low.a.shape, self.high.a.shape)
        u = rand(sh, dtype=self.low.dtype, device=self.low.dev)
        return self.low + u * (self.high - self.low)

    rsample = sample


class Normal:
    def __init__(self, loc, scale, validate_args=None):
        self.loc = loc if isinstance(loc, Tensor) else tensor(loc)
        self.scale = scale if isinstance(scale, Tensor) else tensor(scale)

    def sample(self, sample_shape=()):
        sh = ints((sample_shape,)) + np.broadcast_shapes(self.loc.a.shape, self.scale.a.shape)
        d, t = common_device([self.loc, self.scale]), promote(self.loc, self.scale)
        return self.loc + self.scale * randn(sh, dtype=t, device=d)

    rsample = sample


class NoGrad:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class Generator:
    def __init__(self, device=None):
        self.device = device

    def manual_seed(self, s):
        ENV.seeds.append(("torch generator", s))
        return self


class TorchModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("torch.%s" % n)


def _two(u):
    def f(a, b, out=None, **k):
        if not isinstance(a, Tensor) and not isinstance(b, Tensor):
            raise TypeError("argument must be Tensor")
        d = None
        if u is np.true_divide:
            d = promote(a, b)
            d = d if d.kind == "f" else DEFAULT[0]
        if u in symarr.BOOLOPS:
            d = bool_
        return apply(u, a, b, dt=d, out=out)
    return f


def _meth(n):
    def f(x, *a, **k):
        if not isinstance(x, Tensor):
            raise TypeError("%s(): argument 'input' (position 1) must be Tensor, not %s" % (n, type(x).__name__))
        if "input" in k:
            k.pop("input")
        out = k.pop("out", None)
        r = getattr(x, n)(*a, **k)
        return _out(r, out)
    return f


def make():
    m = TorchModule("torch")
    for d in (float64, float32, float16, bfloat16, int64, int32, int16, int8, uint8):
        setattr(m, d.name, d)
    m.bool = bool_
    m.double, m.float, m.half, m.long, m.int, m.short = float64, float32, float16, int64, int32, int16
    m.dtype = Dt
    m.Tensor = Tensor
    m.device = Device
    m.Size = Size
    m.zeros, m.ones, m.empty, m.full, m.eye, m.arange, m.linspace = zeros, ones, empty, full, eye, arange, linspace
    m.zeros_like, m.ones_like, m.empty_like, m.full_like = _like(zeros), _like(ones), _like(empty), _like(full)
    m.rand, m.randn, m.normal = rand, randn, normal
    m.rand_like = _like(rand)
    m.randn_like = _like(randn)
    m.tensor, m.as_tensor, m.from_numpy, m.asarray = tensor, as_tensor, from_numpy, as_tensor
    m.is_tensor = lambda x: isinstance(x, Tensor)
    m.numel = lambda x: x.numel()
    m.is_floating_point = lambda x: x.dtype.kind == "f"
    for n in ("exp", "log", "sqrt", "rsqrt", "square", "abs", "sin", "cos", "tanh", "sign", "reciprocal", "round", "floor",
              "ceil", "isnan", "isinf", "isfinite", "logical_not", "sum", "prod", "mean", "var", "std", "amax", "amin", "aminmax",
              "max", "min", "argmax", "argmin", "any", "all", "norm", "logsumexp", "softmax", "cumsum", "trace", "t", "transpose",
              "swapaxes", "permute", "reshape", "flatten", "ravel", "squeeze", "unsqueeze", "tile", "diag", "diagonal", "select",
              "narrow", "flip", "roll", "index_select", "sort", "unbind", "chunk", "clone", "detach", "clamp", "clip", "neg",
              "negative", "inverse", "det", "add", "sub", "subtract", "absolute", "quantile", "median", "diff", "split", "tril",
              "triu", "expm1", "log1p", "sigmoid", "repeat_interleave", "movedim", "moveaxis", "lerp", "addcmul", "addcdiv", "addmm",
              "addmv", "baddbmm", "take_along_dim", "gather", "count_nonzero", "nansum", "nan_to_num", "logaddexp", "kron", "diag_embed"):
        setattr(m, n, _meth(n))
    for n, u in (("mul", np.multiply), ("multiply", np.multiply), ("div", np.true_divide), ("divide", np.true_divide),
                 ("true_divide", np.true_divide), ("pow", np.power), ("maximum", np.maximum), ("minimum", np.minimum),
                 ("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal), ("eq", np.equal),
                 ("ne", np.not_equal), ("logical_and", np.logical_and), ("logical_or", np.logical_or), ("less", np.less),
                 ("greater", np.greater), ("less_equal", np.less_equal), ("greater_equal", np.greater_equal),
                 ("remainder", np.remainder), ("floor_divide", np.floor_divide), ("hypot", np.hypot),
                 ("logical_xor", np.logical_xor), ("bitwise_and", np.logical_and), ("bitwise_or", np.logical_or), ("fmax", np.maximum), ("fmin", np.minimum)):
        setattr(m, n, _two(u))
    for n in ("clamp_min", "clamp_max", "cumprod", "dist", "fliplr", "flipud", "take", "vdot", "cov", "argsort", "masked_select", "masked_fill", "nonzero", "swapdims",
              "unflatten", "inner", "index_add", "index_copy", "index_fill", "abs_", "exp_", "sqrt_", "square_", "neg_", "reciprocal_", "clamp_"):
        setattr(m, n, _meth(n))
    m.not_equal = _two(np.not_equal)
    m.addr = lambda x, a, b, beta=1, alpha=1: x * beta + a.outer(b) * alpha
    m.dstack = lambda ts: cat([t if t.a.ndim > 2 else m.atleast_3d(t) for t in ts], 2)
    m.atleast_3d = lambda x: x if x.a.ndim > 2 else x.unsqueeze(-1) if x.a.ndim == 2 else x.reshape(1, -1, 1)
    m.hsplit = lambda x, n: x.split(x.a.shape[1 if x.a.ndim > 1 else 0] // n, 1 if x.a.ndim > 1 else 0) if isinstance(n, int) else _meth("hsplit")(x, n)
    m.fill = lambda x, v: full(tuple(x.shape), v, dtype=x.dtype, device=x.dev)
    m.cholesky = cholesky
    m.cholesky_solve, m.cholesky_inverse = cholesky_solve, cholesky_inverse
    m.matmul = m.mm = m.bmm = m.mv = m.dot = matmul
    m.outer = m.ger = lambda a, b: a.unsqueeze(1) * b.unsqueeze(0)
    m.einsum, m.cat, m.concat, m.concatenate, m.stack, m.where, m.cdist = einsum, cat, cat, cat, stack, where, cdist
    m.vstack = lambda ts: cat([t if t.a.ndim > 1 else t.unsqueeze(0) for t in ts], 0)
    m.hstack = lambda ts: cat(ts, 0 if ts[0].a.ndim == 1 else 1)
    m.atleast_1d = lambda x: x if x.a.ndim else x.reshape(1)
    m.allclose = lambda a, b, rtol=1e-5, atol=1e-8, **k: bool(symarr._truth(symarr.h_allclose(a.a, b.a, rtol, atol)))
    m.equal = lambda a, b: bool(symarr._truth(symarr.h_array_equal(a.a, b.a)))
    m.isclose = lambda a, b, rtol=1e-5, atol=1e-8, **k: (a - b).abs() <= atol + rtol * b.abs()
    m.broadcast_to = lambda x, s: x.expand(*s)
    m.broadcast_tensors = lambda *ts: tuple(t._v(x) for t, x in zip(ts, np.broadcast_arrays(*[plain(t.a) for t in ts])))
    m.numel = lambda x: x.numel()
    m.std_mean = lambda x, dim=None, *a, **k: (x.std(dim, *a, **k), x.mean(dim, keepdim=k.get("keepdim", False)))
    m.var_mean = lambda x, dim=None, *a, **k: (x.var(dim, *a, **k), x.mean(dim, keepdim=k.get("keepdim", False)))
    m.pinverse = linalg_pinv
    m.tensordot = lambda a, b, dims=2, **k: mk(arr(np.tensordot(plain(a.a), plain(b.a), dims)), promote(a, b), common_device([a, b]))
    m.column_stack = lambda ts: cat([t if t.a.ndim > 1 else t.unsqueeze(1) for t in ts], 1)
    m.row_stack = m.vstack
    m.atleast_2d = lambda x: x if x.a.ndim > 1 else x.reshape(1, -1)
    m.meshgrid = lambda *ts, indexing="ij": tuple(t._v(x) for t, x in zip(ts, np.meshgrid(*[plain(t.a) for t in ts], indexing=indexing)))
    m.scalar_tensor = lambda v, dtype=None, device=None, **k: tensor(v, dtype=dtype, device=device)
    m.block_diag = lambda *ts: cat([cat([t if i == j else zeros(t.a.shape[0], u.a.shape[1], dtype=t.dtype, device=t.dev)
                                         for j, u in enumerate(ts)], 1) for i, t in enumerate(ts)], 0)
    m.heaviside = lambda x, v: where(x > 0, 1.0, where(x < 0, 0.0, v))
    m.pdist = lambda x, p=2.0: cat([cdist(x[i:i + 1], x[i + 1:], p)[0] for i in range(x.a.shape[0] - 1)])
    m.set_printoptions = lambda *a, **k: None
    lin = TorchModule("torch.linalg")
    lin.inv, lin.solve, lin.pinv = linalg_inv, linalg_solve, linalg_pinv
    lin.det = lambda a: a.det()
    lin.norm = lin.vector_norm = lambda a, ord=None, dim=None, keepdim=False, **k: a.norm(2 if ord is None else ord, dim, keepdim)
    lin.multi_dot = lambda xs: __import__("functools").reduce(matmul, xs)
    lin.matmul = matmul
    lin.cholesky = cholesky
    lin.diagonal = lambda a, offset=0, dim1=-2, dim2=-1: a.diagonal(offset, dim1, dim2)
    lin.vecdot = lambda a, b, dim=-1, **k: (a * b).sum(dim)
    lin.inv_ex = lambda a, **k: (linalg_inv(a), None)
    lin.matrix_norm = lambda a, ord="fro", dim=(-2, -1), keepdim=False, **k: a.norm(ord, dim, keepdim)
    sp = TorchModule("torch.special")
    sp.logsumexp = _meth("logsumexp")
    sp.softmax = _meth("softmax")
    sp.expm1, sp.log1p = _meth("expm1"), _meth("log1p")
    m.special = sp
    lin.LinAlgError = np.linalg.LinAlgError
    m.linalg = lin
    dist = TorchModule("torch.distributions")
    dist.Uniform, dist.Normal = Uniform, Normal
    du, dn = TorchModule("torch.distributions.uniform"), TorchModule("torch.distributions.normal")
    du.Uniform, dn.Normal = Uniform, Normal
    dist.uniform, dist.normal = du, dn
    m.distributions = dist
    cuda = TorchModule("torch.cuda")
    cuda.is_available = lambda: CUDA[0]
    cuda.device_count = lambda: 1 if CUDA[0] else 0
    cuda.current_device = lambda: 0
    cuda.synchronize = cuda.empty_cache = lambda *a: None
    cuda.manual_seed = cuda.manual_seed_all = lambda s: ENV.seeds.append(("torch.cuda", s))
    m.cuda = cuda
    m.no_grad = m.enable_grad = m.set_grad_enabled = m.inference_mode = NoGrad
    m.set_default_dtype = lambda d: DEFAULT.__setitem__(0, d)
    m.get_default_dtype = lambda: DEFAULT[0]
    m.set_default_device = lambda d: DEFAULT_DEVICE.__setitem__(0, d)
    m.set_default_tensor_type = lambda d: DEFAULT.__setitem__(0, float64 if "Double" in str(d) else float32)
    m.manual_seed = lambda s: ENV.seeds.append(("torch", s))
    m.seed = lambda: ENV.seeds.append(("torch",))
    m.set_num_threads = lambda n: None
    m.set_rng_state = lambda s: ENV.seeds.append(("torch state",))
    m.get_rng_state = lambda: None
    m.Generator = Generator
    m.pi = Sym.of(math.pi)
    m.inf, m.nan = math.inf, math.nan
    m.finfo = lambda d: types.SimpleNamespace(eps=2.220446049250313e-16, tiny=2.2250738585072014e-308, max=1.7976931348623157e308, min=-1.7976931348623157e308)
    m.set_printoptions = lambda *a, **k: None
    m.float_power = _two(np.power)
    m.autograd = TorchModule("torch.autograd")
    m.random = TorchModule("torch.random")
    m.random.manual_seed = m.manual_seed
    m.__version__ = "2"
    fn = TorchModule("torch.nn.functional")
    fn.pairwise_distance = lambda a, b, p=2.0, eps=1e-6, keepdim=False: (a - b + eps).norm(p, -1, keepdim)
    fn.normalize = lambda x, p=2.0, dim=1, **k: x / x.norm(p, dim, True)
    fn.softmax = lambda x, dim=None, **k: x.softmax(dim)
    nn = TorchModule("torch.nn")
    nn.functional = fn
    m.nn = nn
    return m, {"torch.linalg": lin, "torch.distributions": dist, "torch.distributions.uniform": du,
               "torch.distributions.normal": dn, "torch.cuda": cuda, "torch.nn": nn, "torch.nn.functional": fn}
