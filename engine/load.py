"""Loads the modules of /repo into the symbolic executor, from their current source."""
import ast
import builtins
import hashlib
import importlib
import numbers
import os
import types

from . import libs, poly, symarr
from .poly import Sym

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "DeterministicParticleFlowControl"
STDLIB = {"time", "typing", "functools", "itertools", "warnings", "collections", "copy", "os", "sys", "abc", "dataclasses",
          "contextlib", "numbers", "operator", "types", "enum", "inspect", "re", "string", "__future__", "datetime",
          "collections.abc", "os.path", "pathlib", "textwrap", "weakref", "threading", "gc", "bisect", "heapq", "fractions", "decimal",
          "json", "pickle", "traceback", "hashlib", "uuid", "io", "pprint", "string", "numbers", "cmath", "queue", "atexit", "platform"}
numbers.Real.register(Sym)


SEEN = set()          # functions of the code under test that were executed symbolically


def _watch():
    import sys
    m = sys.monitoring
    try:
        m.use_tool_id(m.COVERAGE_ID, "verif")
    except ValueError:
        return

    def start(code, off):
        if REPO and code.co_filename.startswith(REPO):
            SEEN.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.PY_START, start)
    m.set_events(m.COVERAGE_ID, m.events.PY_START)


_watch()


class Rewrite(ast.NodeTransformer):
    """float literals become exact decimals; / is exact on integers"""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            src = repr(n.value)
            if "inf" in src or "nan" in src:
                return n
            return ast.copy_location(ast.Call(ast.Name("__flt__", ast.Load()), [ast.Constant(src)], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], ast.copy_location(
                ast.Call(ast.Name("__idiv__", ast.Load()), [load, n.value], []), n)), n)
        return n

    def visit_FunctionDef(self, n):
        # annotations are not values
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.generic_visit(n)
        return n


def flt(s):
    return Sym.const(poly.Fraction(s))


def idiv(a, b):
    if isinstance(a, (int, float, Sym)):
        return libs.b_div(a, b)
    a /= b
    return a


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return libs.b_isinstance(x, int)


class FloatT(float, metaclass=type("FM", (type,), {"__instancecheck__": lambda c, x: isinstance(x, (float, Sym))})):
    """float(): identity on symbolic values"""
    def __new__(cls, x=0.0):
        return libs.b_float(x)


class IntT(int, metaclass=type("IM", (type,), {"__instancecheck__": lambda c, x: isinstance(x, int)})):
    def __new__(cls, x=0, *a):
        return libs.b_int(x, *a)


class Loader:
    def __init__(self, wrap=None):
        self.table = libs.table()
        self.mods = {}
        self.files = {}
        self.wrap = wrap
        self.functions = set()
        b = dict(vars(builtins))
        b.update(max=libs.b_max, min=libs.b_min, round=libs.b_round, sum=libs.b_sum, range=libs.b_range,
                 isinstance=self.isinstance_, print=lambda *a, **k: None, __import__=self.import_, abs=self.abs_,
                 float=FloatT, int=IntT, sorted=libs.b_sorted, open=self.no_open)
        b["__flt__"], b["__div__"], b["__idiv__"] = flt, libs.b_div, idiv
        self.builtins = b
        r = types.ModuleType("random")
        npr = self.table["numpy"].random
        r.random = lambda: npr.uniform()
        r.uniform = lambda a, b: npr.uniform(a, b)
        r.gauss = r.normalvariate = lambda m=0, s=1: npr.normal(m, s)
        r.seed = npr.seed
        self.table["random"] = r

    @staticmethod
    def no_open(*a, **k):
        raise poly.Unsupported("open()")

    @staticmethod
    def abs_(x):
        if isinstance(x, Sym):
            return poly.absolute(x)
        return abs(x)

    @staticmethod
    def isinstance_(x, t):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for u in ts:
            if u is FloatT:
                u = float
            elif u is IntT:
                u = int
            flat.append(u)
        return libs.b_isinstance(x, tuple(flat))

    # ---- resolution
    def find(self, name):
        rel = name.replace(".", "/")
        for root in (REPO, os.path.join(REPO, PKG), os.path.join(REPO, PKG, "score_estimators")):
            p = os.path.join(root, rel)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                return os.path.join(p, "__init__.py"), True
            if os.path.isfile(p + ".py"):
                return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.table:
            return self.table[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.find(name)
        if path is None:
            if name in STDLIB:
                return importlib.import_module(name)
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        src = open(path).read()
        self.files[os.path.relpath(path, REPO)] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if self.wrap is not None:
            self.wrap(m)
        if "." in name:
            par, _, last = name.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], last, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            if not base:
                raise ImportError("attempted relative import with no known parent package")
            full = base + "." + name if name else base
        else:
            full = name
        m = self.load(full)
        if not fromlist:
            if level:
                return m
            return self.load(name.partition(".")[0])
        for f in fromlist:
            if f != "*" and not hasattr_plain(m, f) and hasattr(m, "__path__"):
                try:
                    self.load(full + "." + f)
                except ModuleNotFoundError:
                    pass
        return m


def hasattr_plain(m, n):
    return n in vars(m)
