"""Concrete domain: the same bodies on the real libraries, with the sample values of one (seed, over)."""
import contextlib
import importlib
import inspect
import os
import sys

import numpy as np

from . import scores, values
from .dom import FORMS, INTS, Dom

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "DeterministicParticleFlowControl"


class Hooks:
    """random draws, transport solvers and score estimators of the real libraries, recorded"""

    def __init__(self):
        self.seed, self.over = "1", {}
        self.reset("1", {})
        self.installed = False
        self.reference = False

    def reset(self, seed, over):
        self.seed, self.over = seed, over
        self.n = {"normal": 0, "uniform": 0}
        self.drawn = {"normal": [], "uniform": []}
        self.scores, self.plans, self.seeds = [], [], []
        self.tag = ""
        self.inner = 0
        self.draw_tags = []

    def rewind(self):
        self.n = {"normal": 0, "uniform": 0}

    def draw(self, kind, shape):
        out = np.empty(shape, dtype=float)
        p = {"normal": "xi", "uniform": "r"}[kind]
        for i in np.ndindex(*out.shape):
            name = "%s%s%d" % (p, self.tag, self.n[kind])
            v = self.over[name] if name in self.over else values.value(self.seed, name, kind)
            out[i] = v
            if self.n[kind] >= len(self.drawn[kind]):
                self.drawn[kind].append(float(v))
            self.n[kind] += 1
        return out

    # ---- installation
    def install(self):
        if self.installed:
            return
        self.installed = True
        for m in ("scipy.stats", "scipy.spatial.distance", "numba", "matplotlib.pyplot", "pyemd", "ot", "torch"):
            try:
                importlib.import_module(m)
            except ImportError:
                pass
        self.patch_numpy()
        try:
            import torch
            self.patch_torch(torch)
        except ImportError:
            pass
        self.patch_transport()

    def patch_numpy(self):
        H = self
        rnd = np.random

        def size(s, *ps):
            if s is None:
                return np.broadcast_shapes(*[np.shape(p) for p in ps])
            return tuple(s) if isinstance(s, (list, tuple)) else (int(s),)

        def ret(a):
            return float(a) if a.ndim == 0 else a

        def normal(loc=0.0, scale=1.0, size_=None, **k):
            s = k.get("size", size_)
            return ret(np.asarray(loc) + np.asarray(scale) * H.draw("normal", size(s, loc, scale)))

        def uniform(low=0.0, high=1.0, size_=None, **k):
            s = k.get("size", size_)
            return ret(np.asarray(low) + (np.asarray(high) - np.asarray(low)) * H.draw("uniform", size(s, low, high)))

        def standard_normal(size=None, **k):
            return normal(0.0, 1.0, () if size is None else size)

        def random(size=None, **k):
            return uniform(0.0, 1.0, () if size is None else size)

        def multivariate_normal(mean, cov, size=None, **k):
            cov = np.asarray(cov)
            s = () if size is None else (tuple(size) if isinstance(size, (list, tuple)) else (int(size),))
            return np.asarray(mean) + np.sqrt(np.diag(cov)) * H.draw("normal", s + (cov.shape[0],))

        real_rng = rnd.default_rng

        class Gen:
            def __getattr__(self, n):
                return getattr(real_rng(1), n)

            def __init__(self, seed=None):
                if seed is not None:
                    H.seeds.append(("generator", str(seed)))

            def seed(self, *a, **k):
                H.seeds.append(("seed",) + tuple(map(str, a)))
        for n, f in (("normal", normal), ("uniform", uniform), ("standard_normal", standard_normal), ("random", random),
                     ("random_sample", random), ("multivariate_normal", multivariate_normal),
                     ("rand", lambda *s: uniform(0.0, 1.0, s)), ("randn", lambda *s: normal(0.0, 1.0, s))):
            setattr(Gen, n, staticmethod(f))
            setattr(rnd, n, f)
        rnd.ranf = rnd.sample = random
        rnd.default_rng = lambda seed=None: Gen(seed)
        rnd.RandomState_real = rnd.RandomState
        rnd.RandomState = Gen
        rnd.seed = lambda *a, **k: H.seeds.append(("seed",) + tuple(map(str, a)))
        rnd.set_state = lambda *a, **k: H.seeds.append(("set_state",))
        import random as pyr
        pyr.random = lambda: uniform()
        pyr.uniform = lambda a, b: uniform(a, b)
        pyr.gauss = pyr.normalvariate = lambda m=0.0, s=1.0: normal(m, s)
        pyr.seed = lambda *a, **k: H.seeds.append(("seed",) + tuple(map(str, a)))

    def patch_torch(self, torch):
        H = self

        def mk(kind, shape, dtype, device):
            a = H.draw(kind, tuple(int(i) for i in shape))
            H.draw_tags.append((kind, dtype or torch.get_default_dtype(), device))
            return torch.tensor(a, dtype=dtype or torch.get_default_dtype(), device=device)

        def shape_of(s, size):
            if size is not None:
                return tuple(size)
            if len(s) == 1 and isinstance(s[0], (list, tuple, torch.Size)):
                return tuple(s[0])
            return s

        def rand(*s, size=None, dtype=None, device=None, generator=None, requires_grad=False, **k):
            return mk("uniform", shape_of(s, size), dtype, device)

        def randn(*s, size=None, dtype=None, device=None, generator=None, requires_grad=False, **k):
            return mk("normal", shape_of(s, size), dtype, device)

        def normal(mean=0.0, std=1.0, size=None, dtype=None, device=None, generator=None, out=None, **k):
            if size is not None:
                return mean + std * mk("normal", size, dtype, device)
            ts = [t for t in (mean, std) if torch.is_tensor(t)]
            shp = torch.broadcast_shapes(*[t.shape for t in ts])
            r = mean + std * mk("normal", shp, ts[0].dtype, ts[0].device)
            return r

        def normal_(self, mean=0.0, std=1.0, generator=None):
            return self.copy_(mean + std * mk("normal", self.shape, self.dtype, self.device))

        def uniform_(self, a=0.0, b=1.0, generator=None, **k):
            lo, hi = k.get("from", a), k.get("to", b)
            return self.copy_(lo + (hi - lo) * mk("uniform", self.shape, self.dtype, self.device))
        torch.rand, torch.randn, torch.normal = rand, randn, normal
        torch.rand_like = lambda x, dtype=None, device=None, **k: mk("uniform", x.shape, dtype or x.dtype, device or x.device)
        torch.randn_like = lambda x, dtype=None, device=None, **k: mk("normal", x.shape, dtype or x.dtype, device or x.device)
        torch.Tensor.normal_, torch.Tensor.uniform_ = normal_, uniform_
        note = lambda *a, **k: H.seeds.append(("seed",) + tuple(map(str, a)))
        torch.manual_seed = torch.seed = torch.set_rng_state = note
        torch.random.manual_seed = torch.random.seed = note
        torch.cuda.manual_seed = torch.cuda.manual_seed_all = note
        import torch.distributions.normal, torch.distributions.uniform, torch.distributions.utils
        import torch.distributions.multivariate_normal
        torch.distributions.utils._standard_normal = lambda shape, dtype, device: mk("normal", shape, dtype, device)
        torch.distributions.normal._standard_normal = torch.distributions.utils._standard_normal
        torch.distributions.multivariate_normal._standard_normal = torch.distributions.utils._standard_normal

    def patch_transport(self):
        H = self

        def host(x):
            return np.array(x.detach().cpu().numpy() if hasattr(x, "detach") else x, dtype=float)
        try:
            import pyemd
            real = pyemd.emd_with_flow
            import pyemd.emd as pe

            def emd_with_flow(a, b, c, *r, **k):
                H.inner += 1
                try:
                    res = real(a, b, c, *r, **k)
                finally:
                    H.inner -= 1
                H.plans.append({"a": host(a).reshape(-1), "b": host(b).reshape(-1), "cost": host(c), "T": np.array(res[1], dtype=float), "how": "pyemd"})
                return res
            pyemd.emd_with_flow = emd_with_flow
            try:
                pe.emd_with_flow = emd_with_flow
            except (TypeError, AttributeError):
                pass
        except ImportError:
            pass
        try:
            import ot
            try:
                import torch
                ot.backend.get_backend(torch.zeros(1))     # before any emulated second device
            except Exception:
                pass
            real_emd = ot.emd

            def emd(a, b, M, *r, **k):
                res = real_emd(a, b, M, *r, **k)
                if H.inner:
                    return res
                T = res[0] if isinstance(res, tuple) else res
                n, m = M.shape
                A = host(a) if len(a) else np.full(n, 1.0 / n)
                B = host(b) if len(b) else np.full(m, 1.0 / m)
                H.plans.append({"a": A, "b": B, "cost": host(M), "T": host(T), "how": "pot"})
                return res
            ot.emd = ot.lp.emd = emd
        except ImportError:
            pass

    def wrap_estimators(self, all_refs=True):
        """replace the estimators by recording versions in every module that holds them"""
        H = self
        done = {}
        for n, m in list(sys.modules.items()):
            f = getattr(m, "__file__", None)
            if m is None or not f or not os.path.abspath(f).startswith(os.path.join(REPO, PKG)):
                continue
            for name in list(vars(m)):
                v = vars(m)[name]
                if name in scores.NAMES and callable(v) and not hasattr(v, "real") and inspect.isfunction(v):
                    if v not in done:
                        done[v] = H.recorder(name, v)
                    setattr(m, name, done[v])

    def unwrap_estimators(self):
        for n, m in list(sys.modules.items()):
            f = getattr(m, "__file__", None)
            if m is None or not f or not os.path.abspath(f).startswith(os.path.join(REPO, PKG)):
                continue
            for name in list(vars(m)):
                v = vars(m)[name]
                if name in scores.NAMES and hasattr(v, "real"):
                    setattr(m, name, v.real)

    def recorder(self, name, real):
        H = self
        kind = scores.NAMES[name]
        sig = inspect.signature(real)

        def host(x):
            return np.array(x.detach().cpu().numpy() if hasattr(x, "detach") else x, dtype=float)

        def stub(*a, **k):
            g = scores.bind(sig, a, k)
            X, Z = host(g["X"]), host(g["Z"])
            dim = Z.shape[1]
            if scores.point_cloud(X, H.over):
                from .dom import Skip
                raise Skip("coinciding samples")
            l = host(g.get("l", 1)).reshape(-1)
            l = np.repeat(l, dim) if l.size == 1 else l
            C = float(g.get("C", 0.001))
            dims = [int(g.get("which_dim", 1)) - 1] if kind == "dim" else list(range(dim))
            rec = {"name": name, "X": X.copy(), "Z": Z.copy(), "l": l.copy(), "C": C, "kern": str(g.get("kern", "RBF")),
                   "dims": dims, "evals": [], "fn": bool(g.get("func_out", False)), "device": g.get("device")}
            H.scores.append(rec)

            def keep(q, r):
                if H.reference:
                    v = scores.reference(X, Z, l, C, host(q))
                    v = v[:, dims[0]] if kind == "dim" else v
                    if kind == "torch":
                        import torch
                        v = torch.tensor(v, dtype=torch.float64, device=g.get("device"))
                    r = v
                o = host(r)
                rec["evals"].append((host(q).copy(), o.reshape(-1, 1).copy() if kind == "dim" else o.copy()))
                return r
            r = real(*a, **k)
            if rec["fn"]:
                return lambda q: keep(q, r(q))
            return keep(g["X"], r)
        stub.real = real
        stub.__name__ = name
        stub.__signature__ = sig
        return stub


HOOKS = Hooks()


class NumDom(Dom):
    sym = False

    def __init__(self, cfg, seed, over, stub=True):
        super().__init__()
        self.cfg = cfg
        self.seed, self.over = seed, over
        HOOKS.install()
        HOOKS.reset(seed, over)
        values.profile(seed)
        self.stub = stub
        self.cost_calls = []
        self.decided = {"held": 0, "failed": 0}
        self.f_calls = 0

    # ---- modules
    def module(self, name):
        m = importlib.import_module(name)
        (HOOKS.wrap_estimators if self.stub else HOOKS.unwrap_estimators)()
        return m

    def cls(self, which):
        m = self.module(PKG + "." + PKG)
        return getattr(m, "torched_DPFC" if which == "torch" else "DPFC")

    @property
    def np(self):
        return np

    @property
    def torch(self):
        import torch
        return torch

    # ---- inputs
    def const(self, c):
        return float(c)

    def _input(self, name, kind, info):
        if kind in INTS:
            return float(values.value("ints", name, kind))
        if name in self.over:
            return float(self.over[name])
        return float(values.value(self.seed, name, kind, info))

    def num(self, name, kind="real", **info):
        return self._input(name, kind, info)

    def arr(self, name, shape, kind="real", **info):
        out = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            out[i] = self._input(name + "".join("_%d" % j for j in i), kind, info)
        return out

    def give(self, a, form, device="cpu", dtype="float64"):
        if form in FORMS:
            a = np.rint(np.array(a, dtype=float)).astype(int)
            if form == "inttensor":
                import torch
                from . import vdev
                return vdev.put(torch.tensor(a, dtype=torch.int64), device)
            return a.tolist() if form == "intlist" else int(a) if a.ndim == 0 else a
        a = np.array(a, dtype=float)
        if form == "tensor":
            import torch
            from . import vdev
            return vdev.put(torch.tensor(a, dtype=getattr(torch, dtype)), device)
        if a.ndim == 0:
            return float(a)
        if form == "list":
            return a.tolist()
        if form == "tuple":
            return tuple(a.tolist())
        if form in ("fortran", "ttensor"):
            b = np.zeros((2,) + a.shape, order="F")
            b[0] = a
            if form == "ttensor":
                import torch
                from . import vdev
                b = torch.tensor(np.ascontiguousarray(b.T), dtype=getattr(torch, dtype))
                return vdev.put(b, device).permute(*range(b.ndim - 1, -1, -1))[0]
            return b[0]
        return a

    def host(self, x):
        if hasattr(x, "detach"):
            x = x.detach().cpu().numpy()
        return np.array(x, dtype=object if isinstance(x, (list, tuple)) and False else None)

    def user(self, name, dim):
        def f(x, t):
            self.f_calls += 1
            tor = hasattr(x, "detach")
            X = x.detach().cpu().numpy() if tor else np.asarray(x)
            t = float(t)
            if X.ndim not in (1, 2) or X.shape[0] != dim:
                raise ValueError("drift called with an array of shape %s for dimension %d" % (X.shape, dim))
            if self.cfg.get("ret") == "own":
                return x
            if self.cfg.get("ret") == "const":
                key = (name, X.shape, str(getattr(x, "device", None)))
                if key not in self.kept:
                    v = np.empty(X.shape, dtype=float)
                    for d in range(dim):
                        v[d] = self.f(name, d, None, None)
                    if tor:
                        import torch
                        v = torch.tensor(v, dtype=torch.float64, device=x.device)
                    self.kept[key] = (v, np.array(self.host(v), copy=True))
                return self.kept[key][0]
            out = np.empty(X.shape, dtype=float)
            if X.ndim == 1:
                for d in range(dim):
                    out[d] = values.drift(name, d, list(X), t)
            else:
                for i in range(X.shape[1]):
                    xs = [float(v) for v in X[:, i]]
                    for d in range(dim):
                        out[d, i] = values.drift(name, d, xs, t)
            if tor:
                import torch
                return torch.tensor(out, dtype=torch.float64, device=x.device)
            return out
        return f

    def user_cost(self, name):
        def U(x, t):
            tor = hasattr(x, "detach")
            X = x.detach().cpu().numpy() if tor else np.asarray(x)
            t = float(t)
            if X.ndim not in (1, 2) or X.shape[0] != self.cfg["dim"]:
                raise ValueError("cost called with an array of shape %s for dimension %d" % (X.shape, self.cfg["dim"]))
            cols = [[float(v) for v in X]] if X.ndim == 1 else [[float(v) for v in X[:, i]] for i in range(X.shape[1])]
            us = [self.U(name, c, t) for c in cols]
            self.cost_calls.append({"name": name, "t": t, "xs": cols, "us": us})
            if self.cfg.get("ret") == "own":
                return x[0]
            if X.ndim == 1:
                return us[0]
            key = (name, X.shape, str(getattr(x, "device", None)))
            if key in self.kept:
                return self.kept[key][0]
            out = np.array(us)
            if tor:
                import torch
                out = torch.tensor(us, dtype=torch.float64, device=x.device)
            if self.cfg.get("ret") == "const":
                self.kept[key] = (out, np.array(self.host(out), copy=True))
            return out
        return U

    def f(self, name, d, xs, t):
        ret = self.cfg.get("ret")
        if ret:
            return xs[d] if ret == "own" else self.num("c%s_%d" % (name, d))
        return values.drift(name, d, [float(v) for v in xs], float(t))

    def U(self, name, xs, t):
        ret = self.cfg.get("ret")
        if ret:
            return xs[0] if ret == "own" else self.num("c%s" % name)
        return values.cost(name, [float(v) for v in xs], float(t))

    # ---- records
    def scores(self):
        return HOOKS.scores

    def plans(self):
        return HOOKS.plans

    def costs(self):
        return self.cost_calls

    def counts(self):
        return HOOKS.n["normal"], HOOKS.n["uniform"]

    def seeds(self):
        return HOOKS.seeds

    # ---- arithmetic
    def exp(self, x):
        return float(np.exp(x))

    def sqrt(self, x):
        return float(np.sqrt(x))

    def name(self, x):
        return x

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def val(self, x):
        return float(x)

    def vals(self, a):
        return np.asarray(a, dtype=float)

    # ---- obligations
    def _note(self, label, good, text):
        self.nobl += 1
        self.decided["held" if good else "failed"] += 1
        if not good:
            self.fails.append((label, text))
        return good

    def eq(self, label, a, b, tol=None, scale=None):
        a, b = float(a), float(b)
        if not np.isfinite(b):
            self.fact("not finite")      # C25 is not claimed: an overflow in what is required says nothing
            return True
        t = tol if tol is not None else 1e-7
        m = max(abs(a), abs(b)) if scale is None else float(scale)
        good = abs(a - b) <= t * m + 1e-10
        return self._note(label, bool(good), "%.12g instead of %.12g" % (a, b))

    def eq_any(self, label, a, cands, tol=None, scale=None):
        a = float(a)
        best = min(cands, key=lambda c: abs(float(c) - a) if np.isfinite(c) else np.inf)
        return self.eq(label, a, best, tol, scale)

    def ok(self, label, cond, text=""):
        return self._note(label, bool(cond), text or "false")

    def positive(self, label, x):
        self._note(label, float(x) > 0, "%r" % x)

    def near(self, label, a, b, slack):
        return self._note(label, abs(float(a) - float(b)) <= float(slack) * 1.5 + 1e-12, "%.12g instead of %.12g" % (a, b))

    def same(self, a, b):
        return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)) + abs(float(b)))

    # ---- draws
    def is_noise(self, r):
        v = np.abs(np.array(HOOKS.drawn["normal"]))
        return bool(v.size) and bool((np.abs(v - abs(r)) < 1e-6 * (1 + abs(r))).any())

    def free_draw(self, d, tol, i, free):
        """of the draws that fit, one that is not used elsewhere (draws of equal value cannot be told apart)"""
        if free is None or free(i):
            return i
        return next((int(k) for k in np.nonzero(d < tol)[0] if free(int(k))), i)

    def find_normal(self, label, resid, scale, free=None):
        q = float(resid) / float(scale) if scale else np.nan
        if np.isnan(q) and scale and self.facts.get("not finite"):
            return None
        v = np.array(HOOKS.drawn["normal"])
        if not np.isfinite(q) or not v.size:
            self.fail(label, "no noise")
            return None
        d = np.abs(np.abs(v) - abs(q))
        i = self.free_draw(d, 1e-9, int(np.argmin(d)), free)
        good = abs(abs(v[i]) - abs(q)) < 1e-6 * (1 + abs(q))
        self._note(label, bool(good), "the increment is %.9g times the noise scale, which is no draw" % q)
        return i if good else None

    def pick_noise(self, new, specs, scale):
        for s in specs:
            if self.is_noise((new - s) / scale):
                return s
        return specs[0]

    def uniforms(self):
        return np.array(HOOKS.drawn["uniform"])

    def find_uniform(self, label, z, lo, hi, free=None):
        v = np.array(HOOKS.drawn["uniform"])
        z, lo, hi = float(z), float(lo), float(hi)
        if hi == lo:
            self._note(label, abs(z - lo) <= 1e-9 * (1 + abs(lo)), "%.9g outside [%.9g, %.9g]" % (z, lo, hi))
            return None
        if not v.size:
            self.fail(label, "no uniform draw")
            return None
        r = (z - lo) / (hi - lo)
        d1, d2 = np.abs(v - r), np.abs(1 - v - r)
        i, j = int(np.argmin(d1)), int(np.argmin(d2))
        n = i if d1[i] <= d2[j] else j
        tol = 1e-7 + 1e-13 * (abs(lo) + abs(hi)) / abs(hi - lo)
        good = min(d1[i], d2[j]) < tol
        n = self.free_draw(np.minimum(d1, d2), min(tol, 1e-9), n, free)
        self._note(label, bool(good), "%.9g is not a uniform draw in [%.9g, %.9g]" % (z, lo, hi))
        return n if good else None

    def cost_clouds(self, p, tt):
        groups, single = [], []
        for c in self.cost_calls:
            if c["name"] != p.Uname or abs(c["t"] - tt) > 1e-6:
                continue
            if len(c["xs"]) == 1 and p.N != 1:
                single.append(c)
            else:
                groups.append((c["xs"], c["us"]))
        for n in range(0, len(single), p.N):
            g = single[n:n + p.N]
            groups.append(([c["xs"][0] for c in g], [c["us"][0] for c in g]))
        return groups

    # ---- logic
    def land(self, *cs):
        return all(bool(c) for c in cs)

    def iff(self, label, r, cond):
        r = bool(r)
        return self.ok(label, r == bool(cond), "returned %s" % r)

    def inv(self, A):
        return np.linalg.inv(np.asarray(A, dtype=float)).astype(object)

    def est_eqs(self, label, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(label, "shape %s instead of %s" % (a.shape, b.shape))
            return
        m = float(np.max(np.abs(b))) if b.size else 0.0
        for i in np.ndindex(*a.shape):
            self.eq("%s%s" % (label, list(i)), a[i], b[i], tol=1e-6, scale=max(m, 1e-6))

    def rewind(self):
        HOOKS.rewind()

    def set_draws(self, rec):
        """draws that explain the inducing points, for the boxes a score estimate may use"""
        Z, out = rec["Z"], []
        drawn = np.array(HOOKS.drawn["uniform"])
        if not drawn.size:
            return out
        spans = {}
        for r in HOOKS.scores:
            for A in [r["X"]] + [q for q, _ in r["evals"]]:
                if A.ndim == 2 and A.shape[1] == Z.shape[1]:
                    spans[(A.min(axis=0).tobytes(), A.max(axis=0).tobytes())] = (A.min(axis=0), A.max(axis=0))
        own = (rec["X"].min(axis=0), rec["X"].max(axis=0))
        boxes = [own]
        for lo, hi in list(spans.values())[:400]:
            boxes += [(np.maximum(lo, own[0]), np.minimum(hi, own[1])), (np.minimum(lo, own[0]), np.maximum(hi, own[1]))]
        for d in range(Z.shape[1]):
            for lo, hi in boxes:
                if hi[d] == lo[d]:
                    continue
                r = (Z[:, d] - lo[d]) / (hi[d] - lo[d])
                near = [int(np.argmin(np.abs(drawn - v))) for v in r]
                if all(abs(drawn[n] - v) < 1e-9 for n, v in zip(near, r)):
                    out += near
                    break
        return out

    # ---- parallel loops
    jit = False

    def loops(self, order):
        import numba
        if not self.jit:
            if not hasattr(numba, "prange_real"):
                numba.prange_real = numba.prange
            numba.prange = Tracked.prange if order != "forward" or Tracked.on else numba.prange_real
            Tracked.order = order

    @contextlib.contextmanager
    def racing(self, arrays, what):
        yield

    # ---- devices
    def devices(self, cuda):
        from . import vdev
        vdev.available(cuda)

    @staticmethod
    def device_name(r):
        return str(r).partition(":")[0]

    @contextlib.contextmanager
    def watch(self, dev, what):
        from . import vdev
        d0 = vdev.canon(dev)
        HOOKS.draw_tags = []
        with vdev.Mode() as m:
            yield
        spare = m.spare(d0)
        wrong = [t[:5] for t in m.made if t[2] > 0 and t[3] and (t[0] != "float64" or t[1] != d0) and id(t[5]) not in spare]
        self.ok(what + ": every array is float64 on %s" % d0, not wrong, "%s" % (wrong[:3],))
        wrong = [t for t in HOOKS.draw_tags if str(t[1]) != "torch.float64" or vdev.canon(t[2]) != d0]
        self.ok(what + ": every draw is float64 on %s" % d0, not wrong, "%s" % (wrong[:3],))
        self.ok(what + ": arrays of different devices are not combined", not m.crossing, "%s" % (m.crossing[:3],))

    def placed(self, label, t, dev):
        from . import vdev
        import torch
        if not torch.is_tensor(t):
            self.fail(label, "not a tensor: %s" % type(t).__name__)
            return
        self.ok(label + " is float64", t.dtype == torch.float64, str(t.dtype))
        self.ok(label + " is on %s" % dev, vdev.tag(t) == vdev.canon(dev), vdev.tag(t))

    def out(self, name, a):
        self.outs[name] = np.asarray(self.host(a), dtype=float).tolist()


class Tracked:
    """order in which the iterations of a parallel loop run, for replays without compilation"""
    order = "forward"
    on = False

    @classmethod
    def prange(cls, *a):
        its = list(range(*a))
        if cls.order == "reverse":
            its = its[::-1]
        elif cls.order == "odd-even":
            its = its[1::2] + its[0::2]
        elif cls.order == "rotate":
            its = its[len(its) // 2:] + its[:len(its) // 2]
        return its
