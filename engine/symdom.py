"""Symbolic domain: inputs are SMT variables, obligations go to the prover."""
import contextlib
from fractions import Fraction

import numpy as np

from . import load, poly, scores, smt, symarr, symtorch, values
from .dom import FORMS, INTS, Dom
from .env import ENV
from .poly import ATOMS, Sym, SymBool
from .symarr import SymArray, arr, plain


class Failed:
    def __init__(self, label, verdict, text=""):
        self.label, self.verdict, self.text = label, verdict, text


class SymDom(Dom):
    sym = True

    def __init__(self, prover, cfg, stub=True):
        super().__init__()
        self.prover = prover
        self.cfg = cfg
        self.bad = []          # Failed
        self.loader = load.Loader(wrap=self._wrap if stub else None)
        self.cost_calls = []
        self.f_calls = 0
        self.decided = {"proved": 0, "refuted": 0, "unknown": 0}
        self.how = {}
        self.val_memo = {}
        smt.UF_EVAL["drift"] = lambda ex, a: values.drift(ex[0], ex[1], a[:-1], a[-1])
        smt.UF_EVAL["cost"] = lambda ex, a: values.cost(ex[0], a[:-1], a[-1])

    def _wrap(self, m):
        for n in scores.NAMES:
            f = vars(m).get(n)
            if f is not None and getattr(f, "__module__", None) == m.__name__ and not hasattr(f, "real"):
                setattr(m, n, scores.make_stub(n, f, ENV))

    # ---- modules
    def module(self, name):
        return self.loader.load(name)

    def cls(self, which):
        m = self.module(load.PKG + "." + load.PKG)
        return getattr(m, "torched_DPFC" if which == "torch" else "DPFC")

    @property
    def np(self):
        return self.loader.table["numpy"]

    @property
    def torch(self):
        return self.loader.table["torch"]

    # ---- inputs
    def const(self, c):
        return Sym.const(c)

    def num(self, name, kind="real", **info):
        if kind in INTS:
            return Sym.const(values.value("ints", name, kind))
        return poly.var(name, dict(info, kind=kind))

    def arr(self, name, shape, kind="real", **info):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.num(name + "".join("_%d" % j for j in i), kind, **info)
        return out

    def give(self, a, form, device="cpu", dtype="float64"):
        """the value as the user passes it"""
        if form in FORMS:
            v = np.vectorize(lambda s: int(s.const_value() if isinstance(s, Sym) else s), otypes=[int])(np.asarray(a, dtype=object))
            if form == "inttensor":
                return symtorch.Tensor(arr(v.astype(object)), symtorch.int64, symtorch.dev(device))
            return v.tolist() if form == "intlist" else int(v) if v.ndim == 0 else v
        if np.ndim(a) == 0:
            if form == "tensor":
                return symtorch.Tensor(arr(a), getattr(symtorch, dtype), symtorch.dev(device))
            return a
        a = np.asarray(a, dtype=object)
        if form == "list":
            return a.tolist()
        if form == "tuple":
            return tuple(a.tolist())
        if form == "tensor":
            return symtorch.Tensor(a.copy().view(SymArray), getattr(symtorch, dtype), symtorch.dev(device))
        if form in ("fortran", "ttensor"):      # the same numbers, laid out otherwise in memory
            b = np.empty((2,) + a.shape, dtype=object, order="F")
            b[0], b[1] = a, poly.ZERO
            a = b[0]
            return symtorch.Tensor(a.view(SymArray), getattr(symtorch, dtype), symtorch.dev(device)) if form == "ttensor" else a.view(SymArray)
        return a.copy().view(SymArray)

    def host(self, x):
        if hasattr(x, "__symtensor__"):
            x = x.__symarray__()
        if symarr.is_sym(x) or isinstance(x, (bool, int, float, np.bool_, np.number)):
            return np.asarray(x, dtype=object)
        return np.array(plain(arr(x)), dtype=object)

    def user(self, name, dim):
        def f(x, t):
            self.f_calls += 1
            X = symarr.settle(plain(arr(x.__symarray__() if hasattr(x, "__symtensor__") else x)))
            t = symarr._num(t.item() if hasattr(t, "item") else t)
            if X.ndim not in (1, 2) or X.shape[0] != dim:
                raise ValueError("drift called with an array of shape %s for dimension %d" % (X.shape, dim))
            if self.cfg.get("ret") == "own":
                return x
            if self.cfg.get("ret") == "const":
                key = (name, X.shape, getattr(x, "dev", None))
                if key not in self.kept:
                    v = np.empty(X.shape, dtype=object)
                    for d in range(dim):
                        v[d] = self.f(name, d, None, None)
                    v = v.view(SymArray)
                    v = symtorch.Tensor(v, symtorch.float64, x.dev) if hasattr(x, "__symtensor__") else v
                    self.kept[key] = (v, self.host(v).copy())
                return self.kept[key][0]
            out = np.empty(X.shape, dtype=object)
            if X.ndim == 1:
                xs = [symarr._num(v) for v in X]
                for d in range(dim):
                    out[d] = self.f(name, d, xs, t)
            else:
                for i in range(X.shape[1]):
                    xs = [symarr._num(v) for v in X[:, i]]
                    for d in range(dim):
                        out[d, i] = self.f(name, d, xs, t)
            out = out.view(SymArray)
            return symtorch.Tensor(out, symtorch.float64, x.dev) if hasattr(x, "__symtensor__") else out
        return f

    def user_cost(self, name):
        def U(x, t):
            X = symarr.settle(plain(arr(x.__symarray__() if hasattr(x, "__symtensor__") else x)))
            t = symarr._num(t.item() if hasattr(t, "item") else t)
            dim = self.cfg["dim"]
            if X.ndim not in (1, 2) or X.shape[0] != dim:
                raise ValueError("cost called with an array of shape %s for dimension %d" % (X.shape, dim))
            cols = [[symarr._num(v) for v in X]] if X.ndim == 1 else [[symarr._num(v) for v in X[:, i]] for i in range(X.shape[1])]
            us = [self.U(name, c, t) for c in cols]
            self.cost_calls.append({"name": name, "t": t, "xs": cols, "us": us})
            if self.cfg.get("ret") == "own":
                return x[0]
            if X.ndim == 1:
                return us[0]
            key = (name, X.shape, getattr(x, "dev", None))
            if key in self.kept:
                return self.kept[key][0]
            out = np.empty(len(us), dtype=object)
            out[:] = us
            out = out.view(SymArray)
            out = symtorch.Tensor(out, symtorch.float64, x.dev) if hasattr(x, "__symtensor__") else out
            if self.cfg.get("ret") == "const":
                self.kept[key] = (out, self.host(out).copy())
            return out
        return U

    def f(self, name, d, xs, t):
        ret = self.cfg.get("ret")
        if ret:
            return xs[d] if ret == "own" else self.num("c%s_%d" % (name, d))
        return poly.uf("drift", list(xs) + [t], (name, d))

    def U(self, name, xs, t):
        ret = self.cfg.get("ret")
        if ret:
            return xs[0] if ret == "own" else self.num("c%s" % name)
        return poly.uf("cost", list(xs) + [t], (name,))

    # ---- records
    def scores(self):
        return ENV.scores

    def plans(self):
        return ENV.plans

    def costs(self):
        return self.cost_calls

    def counts(self):
        return ENV.n_normal, ENV.n_uniform

    def seeds(self):
        return ENV.seeds

    # ---- arithmetic
    def exp(self, x):
        return poly.exp(x)

    def sqrt(self, x):
        return poly.sqrt(x)

    def var(self, xs, ddof):
        return symarr._var([Sym.of(x) for x in xs], ddof) if len(xs) > 8 else super().var(xs, ddof)

    def name(self, x):
        """x as a quantity of its own"""
        return symarr._define(x)

    def ite(self, c, a, b):
        return poly.ite(c, a, b)

    def has_choice(self, x):
        """does an if-then-else occur in x (looking through one name)?"""
        x = Sym.of(x)
        ids = x.atom_ids()
        if any(ATOMS[i].kind == "def" for i in ids):
            ids = set(ids) | set(poly.expand_defs_once(x).atom_ids())
        return any(ATOMS[i].kind == "ite" for i in ids)

    def min(self, xs):
        return poly.minimum(*xs)

    def max(self, xs):
        return poly.maximum(*xs)

    def val(self, x):
        if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
            return float(self.prover.vals[0].cond(x))
        if isinstance(x, float):
            return x
        return self.prover.vals[0].term(Sym.of(x))

    def elsewhere(self, a, b):
        v = self.prover.probes[0]
        try:
            return bool(np.allclose(v.array(a), v.array(b), rtol=1e-7, atol=1e-9, equal_nan=True))
        except (ArithmeticError, ValueError, poly.Unsupported):
            return True

    # ---- obligations
    def _note(self, label, v, text=""):
        self.nobl += 1
        self.decided[v.status] += 1
        self.how[v.how] = self.how.get(v.how, 0) + 1
        if v.status != "proved":
            if v.status == "unknown":
                self.fact("undecided")
            self.bad.append(Failed(label, v, text))
        return v.status == "proved"

    def eq(self, label, a, b, tol=None, scale=None):
        if isinstance(a, (float, np.floating)) and not np.isfinite(a):
            return self._note(label, smt.Verdict("refuted", "not finite", self.prover.vals[0]), "%r" % a)
        return self._note(label, self.prover.eq(a, b))

    def eq_any(self, label, a, cands, tol=None, scale=None):
        good = None
        for c in cands:
            st, _ = self.prover.zero(Sym.of(a) - Sym.of(c))
            if st != "nonzero":
                good = c
                break
        if good is None:
            good = cands[0]
        return self.eq(label, a, good)

    def ok(self, label, cond, text=""):
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        return self._note(label, self.prover.holds(cond), text)

    def positive(self, label, x):
        # positive wherever the particles differ: shown as the square of a difference or its root, checked at the sample
        v = self.val(x)
        self.fact("checked at the sample only")
        if not v > 0:
            self.nobl += 1
            self._note(label, smt.Verdict("refuted", "not positive at a point of this path", self.prover.vals[0]))

    def near(self, label, a, b, slack):
        """|a-b| <= slack"""
        d = Sym.of(a) - Sym.of(b)
        return self.ok(label, poly.mkand(poly.mkbool("le", d - Sym.of(slack)), poly.mkbool("le", -d - Sym.of(slack))))

    def same(self, a, b):
        return self.prover.same(a, b)

    # ---- draws
    def _draw_atoms(self, kind):
        n = len(ATOMS)
        memo = self.val_memo.get(kind)
        if memo is None or memo[0] != n:
            ids = [a for a in ATOMS if a.kind == "var" and a.info and a.info.get("kind") == kind and "n" in a.info]
            vals = np.array([self.val(Sym.atom(a)) for a in ids]) if ids else np.zeros(0)
            memo = self.val_memo[kind] = (n, ids, vals)
        return memo[1], memo[2]

    def is_noise(self, r):
        _, vals = self._draw_atoms("normal")
        return bool(len(vals)) and bool((np.abs(np.abs(vals) - abs(r)) < 1e-7 * (1 + abs(r))).any())

    def named_draw(self, x, ids, fit, n):
        """of the draws whose values fit at the sample, the one that occurs in x"""
        fit = np.nonzero(fit)[0]
        if len(fit) < 2:
            return n
        x = Sym.of(x)
        occ = set(x.atom_ids())
        if any(ATOMS[i].kind == "def" for i in occ):
            occ |= set(poly.expand_defs_once(x).atom_ids())
        if ids[n].id in occ:
            return n
        return next((int(k) for k in fit if ids[int(k)].id in occ), n)

    def find_normal(self, label, resid, scale, free=None):
        r, s = self.val(resid), self.val(scale)
        ids, vals = self._draw_atoms("normal")
        if not s or not np.isfinite(r) or not len(vals):
            self.fail(label, "no noise")
            return None
        q = r / s
        d = np.abs(np.abs(vals) - abs(q))
        c = [self.named_draw(resid, ids, d < 1e-9, int(np.argmin(d)))]
        a = ids[c[0]]
        x = Sym.atom(a)
        if not abs(abs(vals[c[0]]) - abs(q)) < 1e-6 * (1 + abs(q)):
            self.fail(label, "the increment is not the drift step plus scale times a standard normal draw")
            return None
        plus = vals[c[0]] * q > 0 or vals[c[0]] == 0 == q and self.prover.zero(Sym.of(resid) - scale * x)[0] != "nonzero"
        if not self.eq(label, resid, scale * x if plus else -scale * x):
            return None
        return a.info["n"]

    def pick_noise(self, new, specs, scale):
        for s in specs:
            if self.is_noise(self.val((new - s)) / self.val(scale)):
                return s
        return specs[0]

    def uniforms(self):
        return self._draw_atoms("uniform")[1]

    def find_uniform(self, label, z, lo, hi, free=None):
        ids, vals = self._draw_atoms("uniform")
        z, lo, hi = Sym.of(z), Sym.of(lo), Sym.of(hi)
        v, l, h = self.val(z), self.val(lo), self.val(hi)
        if not len(vals) or h == l:
            if h == l and len(vals):
                # degenerate box at the sample: decided by the draws that occur in the entry
                a = z.single_atom()
                if a is not None and a.kind == "def":
                    z = poly.expand_defs_once(z)
                occ = [i for i in z.atom_ids() if ATOMS[i].kind == "var" and (ATOMS[i].info or {}).get("kind") == "uniform"]
                if len(occ) == 1:
                    x = Sym.atom(ATOMS[occ[0]])
                    self.eq(label, z, lo + x * (hi - lo))
                    return ATOMS[occ[0]].info["n"]
            self.fail(label, "no uniform draw")
            return None
        r = (v - l) / (h - l)
        d1, d2 = np.abs(vals - r), np.abs(1 - vals - r)
        i, j = int(np.argmin(d1)), int(np.argmin(d2))
        n = self.named_draw(z, ids, np.minimum(d1, d2) < 1e-9, j if d2[j] < d1[i] else i)
        i = j = n
        flip = d2[n] < d1[n]
        if min(d1[i], d2[j]) > 1e-6:
            self.fail(label, "the inducing point is not uniform in its box: position %.6g in [%.6g, %.6g]" % (v, l, h))
            return None
        x = Sym.atom(ids[n])
        if flip:
            x = 1 - x
        if not self.eq(label, z, lo + x * (hi - lo)):
            return None
        return ids[n].info["n"]

    def cost_clouds(self, p, tt):
        t0 = self.val(tt)
        groups = []
        single = []
        for c in self.cost_calls:
            if c["name"] != p.Uname or abs(self.val(c["t"]) - t0) > 1e-6:
                continue
            if not self.same(c["t"], tt):
                continue
            if len(c["xs"]) == 1 and p.N != 1:
                single.append(c)
            else:
                groups.append((c["xs"], c["us"]))
        for n in range(0, len(single), p.N):
            g = single[n:n + p.N]
            groups.append(([c["xs"][0] for c in g], [c["us"][0] for c in g]))
        return groups

    # ---- logic
    def land(self, *cs):
        return poly.mkand(*[c if isinstance(c, SymBool) else bool(c) for c in cs])

    def truth(self, r):
        r = self.host(r)
        r = r.item() if getattr(r, "size", 1) == 1 else r
        if isinstance(r, SymBool) or isinstance(r, (bool, np.bool_)):
            return r
        if isinstance(r, Sym):
            return poly.mknot(poly.mkbool("eq", r))
        if isinstance(r, (int, float, np.number)):
            return bool(r)
        raise TypeError("no truth value: %r" % (type(r),))

    def iff(self, label, r, cond):
        r = self.truth(r)
        if isinstance(r, (bool, np.bool_)):
            return self.ok(label, cond if r else poly.mknot(cond), "returned %s" % r)
        return self.ok(label, poly.mkor(poly.mkand(r, cond), poly.mkand(poly.mknot(r), poly.mknot(cond))))

    def inv(self, A):
        return plain(symarr.inv(np.asarray(A, dtype=object)))

    def est_eqs(self, label, a, b):
        self.eqs(label, a, b)

    def rewind(self):
        ENV.rewind_draws()

    def set_draws(self, rec):
        return [ATOMS[i].info["n"] for x in rec["Z"].flat for i in Sym.of(x).atom_ids()
                if ATOMS[i].kind == "var" and (ATOMS[i].info or {}).get("kind") == "uniform"]

    # ---- parallel loops
    def loops(self, order):
        from .libs import Numba
        Numba.order = order

    @contextlib.contextmanager
    def racing(self, arrays, what):
        from .libs import Numba
        owner = {}
        keep = []
        clash = []

        def touch(a, k, write):
            if not Numba.current or clash:
                return
            who = (Numba.epoch, Numba.current[0])
            for addr in cells(a, k, keep):
                o = owner.setdefault((Numba.epoch, addr), [set(), set()])
                o[write].add(who[1])
                if len(o[1]) > 1 or (o[1] and o[0] - o[1]):
                    names = [n for n, x in arrays if np.may_share_memory(np.asarray(x).view(np.ndarray), a.view(np.ndarray))]
                    clash.append("iterations %s and %s of the parallel loop touch the same cell of %s, at least one writes it" % (
                        sorted(o[1])[0], sorted((o[0] | o[1]) - {sorted(o[1])[0]})[0], names or ["a work array"]))
        symarr.HOOK_WRITE = lambda a, k: touch(a, k, 1)
        symarr.HOOK_READ = lambda a, k: touch(a, k, 0)
        try:
            yield
        finally:
            symarr.HOOK_WRITE = symarr.HOOK_READ = None
        self.ok(what + ": loop iterations touch disjoint cells", not clash, clash[0] if clash else "")

    # ---- devices
    def devices(self, cuda):
        symtorch.CUDA[0] = cuda

    @staticmethod
    def device_name(r):
        return str(r).partition(":")[0]

    @contextlib.contextmanager
    def watch(self, dev, what):
        d0 = symtorch.dev(dev)
        ENV.tensors, ENV.draw_tags, ENV.crossing = [], [], []
        try:
            yield
        finally:
            made, draws, cross = ENV.tensors, ENV.draw_tags, ENV.crossing
            ENV.tensors, ENV.draw_tags, ENV.crossing = None, [], []
        # what is only made to be converted to float64 on the device, without having been computed with, does not count
        spare = set()
        for t in made:
            if t[0] == "float64" and t[1] == d0:
                q = getattr(t[4], "origin", None)
                while q is not None:
                    if q.dtype.name == "float64" or getattr(q, "constant", False):
                        spare.add(id(q))
                    q = getattr(q, "origin", None)
        wrong = [t[:4] for t in made if t[2] > 0 and t[0] not in ("bool", "int", "int32", "int64") and (t[0] != "float64" or t[1] != d0) and
                 id(t[4]) not in spare]
        self.ok(what + ": every array is float64 on %s" % d0, not wrong, "%s" % (wrong[:3],))
        wrong = [t for t in draws if t[1] != "float64" or t[2] != d0]
        self.ok(what + ": every draw is float64 on %s" % d0, not wrong, "%s" % (wrong[:3],))
        self.ok(what + ": arrays of different devices are not combined", not cross, "%s" % (cross[:3],))
        self.fact("tensors", len(made))

    def placed(self, label, t, dev):
        if not hasattr(t, "__symtensor__"):
            self.fail(label, "not a tensor: %s" % type(t).__name__)
            return
        self.ok(label + " is float64", t.dtype.name == "float64", t.dtype.name)
        self.ok(label + " is on %s" % dev, t.dev == symtorch.dev(dev), str(t.dev))

    def out(self, name, a):
        try:
            self.outs[name] = self.prover.vals[0].array(self.host(a)).tolist()
        except poly.Unsupported:
            pass


def cells(a, k, keep):
    """addresses of the cells of a that index k selects"""
    v = a.view(np.ndarray)
    root = v
    while isinstance(root.base, np.ndarray):
        root = root.base
    keep.append(root)
    k = k if isinstance(k, tuple) else (k,)
    sel = np.empty(v.shape, dtype=np.int64)
    base = v.__array_interface__["data"][0]
    off = np.zeros((), dtype=np.int64)
    for ax, st in enumerate(v.strides):
        off = np.add.outer(off, np.arange(v.shape[ax], dtype=np.int64) * st)
    sel[...] = base + off
    from .symarr import _key
    return np.atleast_1d(sel[_key(k)]).reshape(-1).tolist()
