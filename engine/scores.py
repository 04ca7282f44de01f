"""Score estimates as uninterpreted functions, with recording.

`reference` is the closed form of property C12; the symbolic stand-in `make_stub` returns uninterpreted values whose
arguments are everything an estimate may depend on, and evaluates them by the closed form at sample points."""
import inspect
import re

import numpy as np

NAMES = {"score_function_multid_seperate": "dim", "score_function_multid_seperate_old": "dim",
         "score_function_multid_seperate2": "dim", "score_function_multid_seperate_all_dims": "all",
         "torched_score_function_multid_seperate_all_dims": "torch"}


def reference(X, Z, l, C, x):
    """K x dim estimate at the rows of x"""
    X, Z, x = (np.asarray(a, dtype=float) for a in (X, Z, x))
    l = np.asarray(l, dtype=float).reshape(-1)
    if l.size == 1:
        l = np.repeat(l, Z.shape[1])

    def k(a, b):
        return np.exp(-0.5 * np.sum(((a[:, None, :] - b[None, :, :]) / l) ** 2, axis=2))
    Kxz = k(X, Z)
    Ki = np.linalg.inv(k(Z, Z) + 1e-3 * np.eye(len(Z)))
    g = -((X[:, None, :] - Z[None, :, :]) * Kxz[:, :, None] / l ** 2).sum(axis=0)
    return -k(x, Z) @ np.linalg.inv((C + 1e-3) * np.eye(len(Z)) + Ki @ (Kxz.T @ Kxz)) @ Ki @ g


_cache = {}


def eval_score(ex, args):
    d, N, M, dim, kern = ex
    x = args[:dim]
    fit = tuple(args[dim:])
    key = (N, M, dim, fit)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 64:
            _cache.clear()
        v = np.array(fit, dtype=float)
        X = v[:N * dim].reshape(N, dim)
        Z = v[N * dim:(N + M) * dim].reshape(M, dim)
        l = v[(N + M) * dim:(N + M + 1) * dim]
        C = v[-1]

        def k(a, b):
            return np.exp(-0.5 * np.sum(((a[:, None, :] - b[None, :, :]) / l) ** 2, axis=2))
        with np.errstate(all="ignore"):
            try:
                Kxz = k(X, Z)
                Ki = np.linalg.inv(k(Z, Z) + 1e-3 * np.eye(M))
                g = -((X[:, None, :] - Z[None, :, :]) * Kxz[:, :, None] / l ** 2).sum(axis=0)
                w = np.linalg.inv((C + 1e-3) * np.eye(M) + Ki @ (Kxz.T @ Kxz)) @ Ki @ g
            except np.linalg.LinAlgError:
                w = np.full((M, dim), np.nan)
        r = _cache[key] = (Z, l, w)
    Z, l, w = r
    kx = np.exp(-0.5 * np.sum(((np.array(x, dtype=float)[None, :] - Z) / l) ** 2, axis=1))
    # another kernel is another estimate
    return float(-kx @ w[:, d]) * (1.0 if kern == "RBF" else 1.25)


def bind(sig, a, k):
    b = sig.bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def point_cloud(X, over):
    """do the samples coincide because a solver model chose the draws so?  Such a flow has no score to estimate and no
    statement is about it; samples that coincide at an ordinary sample point are judged like any others"""
    if len(X) < 2 or not any(re.match(r"(xi|r)\d|(xi|r)[a-z_.]*\d+$", n) for n in over or {}):
        return False
    return not (np.ptp(X, axis=0) > 1e-12).all()


def make_stub(name, real, env):
    from . import poly, symarr, smt
    from .symarr import arr, plain
    smt.UF_EVAL["score"] = eval_score
    kind = NAMES[name]
    sig = inspect.signature(real)

    def scalar(v):
        v = v.item() if hasattr(v, "item") else v
        return symarr._num(v)

    def stub(*a, **k):
        g = bind(sig, a, k)
        X0, Z0 = g["X"], g["Z"]
        X, Z = symarr.settle(plain(arr(X0))), plain(arr(Z0))
        if X.ndim != 2 or Z.ndim != 2 or X.shape[1] != Z.shape[1]:
            raise ValueError("score estimate: samples %s, inducing points %s" % (X.shape, Z.shape))
        N, dim = X.shape
        M = Z.shape[0]
        over = getattr(smt.CTX.val, "over", None)
        if over and point_cloud(np.array([[smt.CTX.val.term(symarr._num(v)) for v in r] for r in X], dtype=float), over):
            from .dom import Skip
            raise Skip("coinciding samples")
        l0 = g.get("l", 1)
        la = plain(arr(l0)).reshape(-1)
        if la.size not in (1, dim):
            raise ValueError("score estimate: %d length-scales for %d dimensions" % (la.size, dim))
        l = [symarr._num(x) for x in (list(la) if la.size == dim else [la[0]] * dim)]
        C = scalar(g.get("C", 0.001))
        kern = str(g.get("kern", "RBF"))
        which_dim = g.get("which_dim", 1)
        fit = [symarr._num(x) for x in X.reshape(-1)] + [symarr._num(x) for x in Z.reshape(-1)] + l + [C]
        dims = [int(which_dim) - 1] if kind == "dim" else list(range(dim))
        if kind == "dim" and not 0 <= dims[0] < dim:
            raise IndexError("score estimate: which_dim %r of %d" % (which_dim, dim))
        rec = {"name": name, "X": X.copy(), "Z": Z.copy(), "l": np.array(l + [None], dtype=object)[:-1], "C": C, "kern": kern,
               "dims": dims, "evals": [], "fn": bool(g.get("func_out", False)), "device": g.get("device")}
        env.scores.append(rec)

        def at(q):
            q0 = q
            q = symarr.settle(plain(arr(q)))
            if q.ndim != 2 or q.shape[1] != dim:
                raise ValueError("score estimate: query points of shape %s for %d dimensions" % (q.shape, dim))
            out = np.empty((q.shape[0], len(dims)), dtype=object)
            for i in range(q.shape[0]):
                x = [symarr._num(v) for v in q[i]]
                for j, d in enumerate(dims):
                    out[i, j] = poly.uf("score", x + fit, (d, N, M, dim, kern))
            rec["evals"].append((q.copy(), out.copy()))
            r = out[:, 0] if kind == "dim" else out
            if kind == "torch":
                from . import symtorch
                symtorch.common_device([t for t in (X0, Z0) if isinstance(t, symtorch.Tensor)])
                return symtorch.Tensor(r.view(symarr.SymArray), symtorch.float64, symtorch.dev(g.get("device")))
            return r.copy().view(symarr.SymArray)

        return at if rec["fn"] else at(X0)

    stub.__signature__ = sig
    stub.__name__ = name
    stub.real = real
    return stub
