"""What the code under test can observe of its environment: random draws, user functions, solvers; all recorded."""
import math

import numpy as np

from . import poly, symarr
from .poly import Sym, Unsupported
from .symarr import SymArray, arr, plain


class Env:
    def __init__(self):
        self.reset()

    def reset(self):
        self.n_normal = 0
        self.n_uniform = 0
        self.n_garbage = 0
        self.n_plan = 0
        self.seeds = []
        self.scores = []     # records of score estimates
        self.plans = []      # records of transport plans
        self.calls = []      # user function calls
        self.logs = []
        self.draw_tags = []  # device/dtype tags of draws made by the torch stand-in
        self.tensors = None  # list of (dtype, device, ndim) of tensors made, when recording
        self.crossing = []   # stores of a tensor of one device into one of another
        self.tag = ""

    def rewind_draws(self):
        """the next run sees the same random numbers"""
        self.n_normal = 0
        self.n_uniform = 0
        self.n_plan = 0

    def made(self, t):
        if self.tensors is not None:
            import sys
            f = sys._getframe(2)
            while f is not None and "/engine/" in f.f_code.co_filename:
                f = f.f_back
            where = "%s:%d" % (f.f_code.co_filename.split("/")[-1], f.f_lineno) if f is not None else "?"
            self.tensors.append((t.dtype.name, t.dev, t.a.ndim, where, t))

    def stored(self, t, v):
        if hasattr(v, "dev") and v.a.ndim and v.dev != t.dev:
            self.crossing.append((t.dev, v.dev))

    # ---- draws
    def normals(self, shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = poly.var("xi%s%d" % (self.tag, self.n_normal), {"kind": "normal", "n": self.n_normal})
            self.n_normal += 1
        return out.view(SymArray)

    def uniforms(self, shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = poly.var("r%s%d" % (self.tag, self.n_uniform), {"kind": "uniform", "n": self.n_uniform})
            self.n_uniform += 1
        return out.view(SymArray)

    def garbage(self, shape):
        """uninitialised memory"""
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = poly.var("garbage%d" % self.n_garbage, {"kind": "real", "garbage": True})
            self.n_garbage += 1
        return out.view(SymArray)

    # ---- transport plans
    def plan(self, a, b, cost, how):
        a = [symarr._num(x) for x in plain(arr(a)).reshape(-1)]
        b = [symarr._num(x) for x in plain(arr(b)).reshape(-1)]
        cost = plain(arr(cost)).copy()
        n, m = len(a), len(b)
        if cost.shape != (n, m):
            raise ValueError("transport: cost matrix has shape %s for marginals of size %d and %d" % (cost.shape, n, m))
        k = self.n_plan
        self.n_plan += 1
        deps = tuple(a) + tuple(b) + tuple(symarr._num(x) for x in cost.flat)
        solver = _LP(a, b, [[symarr._num(x) for x in r] for r in cost])
        T = np.empty((n, m), dtype=object)
        key = poly._INTERN.setdefault(("plan", k, tuple(poly.K(d) for d in deps)), (k, object()))
        ids = frozenset(x for d in deps for x in d.atom_ids())
        for i in range(n - 1):
            for j in range(m - 1):
                T[i, j] = Sym.atom(_plan_atom(key, i, j, deps, solver, ids))
        for i in range(n - 1):
            T[i, m - 1] = a[i] - symarr._num(symarr._sumlist(list(T[i, :m - 1])))
        for j in range(m):
            T[n - 1, j] = b[j] - symarr._num(symarr._sumlist([T[i, j] for i in range(n - 1)]))
        rec = {"a": np.array(a, dtype=object), "b": np.array(b, dtype=object), "cost": cost, "T": T.copy(), "how": how}
        self.plans.append(rec)
        return T.view(SymArray)


def _plan_atom(plan, i, j, deps, solver, ids):
    # a plan is determined by what was asked: the content is part of the name
    key = (plan, i, j)
    k = plan[0]
    a = poly._INTERN.get(key)
    if a is None:
        a = poly.Atom("var", "T%d" % k, "T%d_%d_%d#%d" % (k, i, j, len(poly.ATOMS)),
                      {"kind": "nonneg", "plan": (i, j), "deps": deps, "ids": ids, "eval": lambda val, i=i, j=j: solver.numeric(val)[i][j]})
        poly._INTERN[key] = a
    return a


_POT = []


def _pot(a, b, c):
    """large plans: POT's network simplex in a process of its own; None if there is none"""
    import json
    import os
    import subprocess
    if _POT and _POT[0] is None:
        return None
    try:
        if not _POT or _POT[1] != os.getpid():
            here = os.path.dirname(os.path.abspath(__file__))
            _POT[:] = [subprocess.Popen(["/opt/venv/bin/python", os.path.join(here, "lpserve.py")],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), os.getpid()]
        p = _POT[0]
        p.stdin.write(json.dumps({"a": a.tolist(), "b": b.tolist(), "c": c.tolist()}) + "\n")
        p.stdin.flush()
        return np.array(json.loads(p.stdout.readline()))
    except (OSError, ValueError):
        _POT[:] = [None, os.getpid()]
        return None


class _LP:
    def __init__(self, a, b, cost):
        self.a, self.b, self.cost = a, b, cost
        self.cache = None

    def numeric(self, val):
        if self.cache is not None and self.cache[0] is val:
            return self.cache[1]
        from scipy.optimize import linprog
        from scipy import sparse
        a = np.array([val._poly(x) for x in self.a])
        b = np.array([val._poly(x) for x in self.b])
        c = np.array([[val._poly(x) for x in r] for r in self.cost])
        n, m = c.shape
        if not (np.isfinite(a).all() and np.isfinite(b).all() and np.isfinite(c).all()) or a.sum() <= 0:
            r = np.full((n, m), np.nan)
        elif n * m >= 1600 and (r := _pot(a, b, c)) is not None:
            pass
        else:
            A = sparse.vstack([sparse.kron(sparse.eye(n), np.ones((1, m))), sparse.kron(np.ones((1, n)), sparse.eye(m))])
            bb = np.concatenate([a, b * a.sum() / b.sum()])
            res = linprog(c.reshape(-1) / max(c.max(), 1e-300), A_eq=A.tocsr()[:-1], b_eq=bb[:-1], bounds=(0, None), method="highs")
            r = res.x.reshape(n, m) if res.x is not None else np.full((n, m), np.nan)
        self.cache = (val, r)
        return r


ENV = Env()
