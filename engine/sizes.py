"""Sizes the source itself singles out.

A branch on a size (`if N > 500: process in chunks`) is invisible to configurations on one side of it.  The integers
written in the package's source are read on every run; for each one beyond the small sizes every check covers anyway,
configurations just at and just past it are added: number of particles, inducing points, query points, time steps,
dimensions.  The pinned source has no such integer."""
import ast
import math
import operator
import os

SMALL, LARGE, MOST = 7, 5000, 4
KEYS = ("N", "N2", "M", "K", "n", "dim")
KIND = ("backend", "est", "what", "dist", "det", "rw", "bb", "rel")
OPS = {ast.Mult: operator.mul, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.Add: operator.add, ast.Sub: operator.sub}


def _value(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return n.value
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        a, b = _value(n.left), _value(n.right)
        if a is not None and b is not None and abs(a) < 1e6 and abs(b) < 64 + 1e6 * (not isinstance(n.op, (ast.Pow, ast.LShift))):
            try:
                return OPS[type(n.op)](a, b)
            except (OverflowError, TypeError, ZeroDivisionError):
                return None
    return None


def files(repo):
    top = os.path.join(repo, "DeterministicParticleFlowControl")
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if x not in ("tests", "data", "__pycache__")]
        for f in fs:
            if f.endswith(".py") and f not in ("due.py", "version.py", "script_1.py"):
                yield os.path.join(d, f)


def integers(repo):
    out = set()
    for p in files(repo):
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except (SyntaxError, OSError, ValueError):
            continue
        for n in ast.walk(tree):
            v = _value(n)
            if v is not None and v == v and abs(v) < 1e9 and v == int(v) and SMALL <= v <= LARGE:
                out.add(int(v))
    return sorted(out)


def _size(c):
    n = 1
    for k in KEYS:
        n *= max(1, c.get(k) or 1)
    return n * (3 if c.get("form") or c.get("forms") or c.get("qform") else 1) * (2 if c.get("gint") else 1) * (1 + len(str(c.get("seq", ""))))


def extra(cfgs, repo):
    """configurations at the integers of the source"""
    vs = integers(repo)
    if not vs:
        return []
    if len(vs) > MOST:      # the ends and the middle
        vs = sorted({vs[round(i * (len(vs) - 1) / (MOST - 1))] for i in range(MOST)})
    groups = {}
    for c in cfgs:
        if c.get("alias") or c.get("ret"):
            continue
        g = tuple(str(c.get(k)) for k in KIND)
        if g not in groups or _size(c) < _size(groups[g]):
            groups[g] = c
    bases = list(groups.values())
    if len(bases) > 8:
        bases = [bases[round(i * (len(bases) - 1) / 7)] for i in range(8)]
    out = []
    for t, v in enumerate(vs):
        for r, c in enumerate(bases):
            for key in KEYS:
                if key not in c or c[key] is None or key == "dim" and v > 24 or key == "n" and (v > 1200 or "seq" in c) or key in ("M",) and v > 600:
                    continue
                if c.get("rw") and key == "N" and v > 1200:
                    continue
                small = [v, v + 1] if (r + t) % 2 == 0 else [v + 1]
                if v > 400 and key in ("N", "K", "N2"):
                    small.append(math.isqrt(v) + 1)
                for s in small:
                    if any(d.get(key) == s and all(str(d.get(k)) == str(c.get(k)) for k in KIND) for d in cfgs):
                        continue
                    e = dict(c)
                    e[key] = s
                    if key == "n":
                        e[key] = s + 3
                        if c.get("q") and len(c["q"][0]) == 1:
                            e["q"] = [[s], [s + 1]]
                        elif c.get("q"):
                            e["q"] = [[s, c["q"][0][1]], [s + 1, 1]]
                    if c.get("y") is False and key in ("N", "M"):
                        e["N"] = e["M"] = s
                    if c.get("same") and key in ("N", "N2"):
                        e["N"] = e["N2"] = s
                    if s == math.isqrt(v) + 1 and v > 400:
                        for k in ("M", "K", "N2"):
                            if k in e and k != key:
                                e[k] = s
                                break
                    if key == "N" and s > 200 and e.get("n", 0) > 3 and not e.get("q") and "seq" not in e:
                        e["n"] = 3
                    e["size"] = v
                    out.append(e)
    return out
