"""A second device for the real torch, on the CPU: tensors carry the device they would be on, operations on tensors of
different devices raise as they would, and what is created is recorded."""
import sys

CUDA = [False]


def available(cuda):
    import torch
    CUDA[0] = bool(cuda)
    torch.cuda.is_available = lambda: CUDA[0]
    torch.cuda.device_count = lambda: 2 if CUDA[0] else 0
    torch.cuda.current_device = lambda: 0


def canon(d):
    if d is None:
        return "cpu"
    s = str(d)
    return "cuda:0" if s == "cuda" else s


def tag(t):
    return getattr(t, "_vdev", "cpu")


def put(t, d):
    d = canon(d)
    if d != "cpu":
        t._vdev = d
    return t


def origin(r, q):
    r._origin = q
    r._constant = getattr(q, "_constant", False)
    return r


def tensors(x, out):
    import torch
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            tensors(y, out)
    return out


def make():
    import torch
    from torch.overrides import TorchFunctionMode

    class Mode_(TorchFunctionMode):
        def __init__(self):
            super().__init__()
            self.made, self.crossing = [], []

        def __torch_function__(self, func, types, args=(), kwargs=None):
            kw = dict(kwargs or {})
            name = getattr(func, "__name__", "")
            ts = tensors([list(args), kw], [])
            if name == "__get__":
                owner = getattr(func, "__self__", None)
                field = getattr(owner, "__name__", "")
                if field == "device":
                    return torch.device(tag(ts[0]))
                if field == "is_cuda":
                    return tag(ts[0]) != "cpu"
                r = func(*args, **kw)
                return self.mark(r, ts, None, args)
            want = None
            if kw.get("device") is not None:
                want = canon(kw["device"])
                kw["device"] = "cpu"
            if name in ("to", "cuda", "cpu"):
                a = list(args)
                if name == "cpu":
                    want = "cpu"
                elif name == "cuda":
                    r = put(args[0].clone(), "cuda")
                    return self.note(origin(r, args[0]))
                else:
                    for i in range(1, len(a)):
                        if isinstance(a[i], (str, torch.device)):
                            want = canon(a[i])
                            a[i] = "cpu"
                        elif isinstance(a[i], torch.Tensor):
                            want = tag(a[i])
                if want is not None and want != tag(args[0]):
                    r = func(*a, **kw).clone()
                    return self.note(origin(put(r, want), args[0]))
                r = func(*a, **kw)
                if r is not args[0]:
                    origin(r, args[0])
                return self.mark(r, ts[:1], want, args)
            if name in ("numpy", "__array__") and tag(ts[0]) != "cpu":
                raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % tag(ts[0]))
            if want is not None and want != "cpu" and not CUDA[0]:
                raise RuntimeError("No CUDA GPUs are available")
            creation = name in ("tensor", "as_tensor")
            if not creation:
                big = {tag(t) for t in ts if t.dim()}
                if name in ("__setitem__", "copy_"):
                    v = ts[-1]
                    if len(ts) > 1 and v.dim() and tag(v) != tag(ts[0]):
                        self.crossing.append((tag(ts[0]), tag(v)))
                elif len(big) > 1 and not name.endswith("_like"):
                    raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, %s!" % " and ".join(sorted(big)))
                elif big:
                    for t in ts:
                        if not t.dim() and tag(t) not in big and tag(t) != "cpu":
                            raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices")
            r = func(*args, **kw)
            if name in ("zeros", "ones", "eye", "empty") and isinstance(r, torch.Tensor):
                r._constant = True
            elif name in ("double", "float", "type", "clone", "detach") and isinstance(r, torch.Tensor) and r is not args[0]:
                origin(r, args[0])
            elif (name.startswith("__i") or name.endswith("_") and not name.endswith("__") or name in ("__setitem__", "copy_")) and ts:
                ts[0]._constant = False
            if creation and want is None and ts and name == "as_tensor":
                want = tag(ts[0])
            if name.endswith("_like") and want is None:
                want = tag(ts[0])
            return self.mark(r, ts, want, args, creation)

        def mark(self, r, ts, want, args, creation=False):
            if isinstance(r, torch.Tensor):
                if any(r is t for t in ts):
                    return r
                if want is None:
                    big = [tag(t) for t in ts if t.dim()]
                    small = [tag(t) for t in ts if not t.dim()]
                    want = "cpu" if creation else (big[0] if big else next((s for s in small if s != "cpu"), "cpu"))
                put(r, want)
                if want == "cpu" and hasattr(r, "_vdev"):
                    del r._vdev
                return self.note(r)
            if isinstance(r, (tuple, list)):
                for x in r:
                    self.mark(x, ts, want, args)
            return r

        def note(self, r):
            f = sys._getframe(2)
            own = False
            for _ in range(6):
                if f is None:
                    break
                if f.f_code.co_filename.endswith("numdom.py") and f.f_code.co_name in ("f", "U", "host", "keep"):
                    f = None          # the user's own functions, and what is recorded
                    break
                if "site-packages" in f.f_code.co_filename and "/torch/" not in f.f_code.co_filename:
                    f = None          # inside another library
                    break
                if "/DeterministicParticleFlowControl/" in f.f_code.co_filename:
                    own = True
                    break
                f = f.f_back
            where = "%s:%d" % (f.f_code.co_filename.split("/")[-1], f.f_lineno) if own else "?"
            self.made.append((str(r.dtype).replace("torch.", ""), tag(r), r.dim(), bool(r.dtype.is_floating_point) and own, where, r))
            return r

        def spare(self, d0):
            """what was only made to be converted to float64 on the device, without having been computed with"""
            out = set()
            for t in self.made:
                if t[0] == "float64" and t[1] == d0:
                    q = getattr(t[5], "_origin", None)
                    while q is not None:
                        if q.dtype == torch.float64 or getattr(q, "_constant", False):
                            out.add(id(q))
                        q = getattr(q, "_origin", None)
            return out
    return Mode_


_cls = []


def Mode():
    if not _cls:
        _cls.append(make())
    return _cls[0]()
