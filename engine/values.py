"""Sample values of inputs and draws: shared by the symbolic and the concrete runs, so that a run is fixed by (seed, over).

A seed may name a regime after a colon ("3:smallg"): the scale of inputs, drift and cost changes with it, so that
guards in the code that only matter at unusual magnitudes are met by some sample."""
import math
import random

REGIMES = {"": (1.0, 1.0, 1.0, 1.0), "smallg": (1.0, 0.02, 1.0, 1.0), "bigg": (1.0, 30.0, 1.0, 1.0), "bigf": (1.0, 1.0, 300.0, 1.0),
           "bigU": (1.0, 1.0, 1.0, 20.0), "far": (40.0, 1.0, 20.0, 1.0), "tiny": (0.01, 0.05, 0.05, 0.1), "calm": (0.3, 0.5, 0.0, 0.0),
           "micro": (2e-4, 2e-4, 2e-4, 0.1), "huge": (5e3, 5e3, 1e3, 1.0), "wide": (1.0, 1.0, 1.0, 1.0), "narrow": (1.0, 1.0, 1.0, 1.0),
           "dear": (1.0, 1.0, 1.0, 1.0), "cheap": (1.0, 1.0, 1.0, 1.0)}
OFFSETS = {"dear": 4e4, "cheap": -4e4}      # of the cost: the weights exp(-U dt) are tiny or vast, their ratios ordinary
LENGTHS = {"tiny": 0.01, "micro": 2e-4, "huge": 5e3, "far": 40.0, "wide": 30.0, "narrow": 0.15}
_now = {"scale": REGIMES[""], "offset": 0.0}


def regime(seed):
    return REGIMES.get(str(seed).partition(":")[2], REGIMES[""])


def profile(seed):
    _now["scale"] = regime(seed)
    _now["offset"] = OFFSETS.get(str(seed).partition(":")[2], 0.0)


def value(seed, name, kind="real", info=None):
    r = random.Random("%s:%s" % (seed, name))
    if kind == "uniform":
        return r.random()
    if kind == "range":
        lo, hi = info["range"]
        return lo + (hi - lo) * r.random()
    if kind == "pos":
        v = 0.4 + 1.2 * r.random()
        if name[:1] == "g":
            return v * regime(seed)[1]
        return v * LENGTHS.get(str(seed).partition(":")[2], 1.0) if name[:1] == "l" else v
    if kind == "int":
        return r.choice((-4, -3, -2, -1, 1, 2, 3, 5))
    if kind == "posint":
        return r.choice((1, 2, 3))
    if kind == "small":
        return 0.0
    if kind == "beside":      # a distance of any order of magnitude, either way
        return r.choice((-1.0, 1.0)) * 10.0 ** r.uniform(-7.5, -0.5)
    if kind == "normal":
        return r.gauss(0.0, 1.0)
    return r.gauss(0.0, 1.0) * regime(seed)[0]


def drift(name, d, x, t):
    """the concrete drift used when a run is replayed"""
    dim = len(x)
    a = {"f": 1.3, "ft": 0.8}.get(name, 1.1)
    n = x[(d + 1) % dim]
    return _now["scale"][2] * (2.0 * math.sin(a * x[d] + 0.7 * (d + 1)) + 0.6 * math.cos(1.1 * n + a)
                               + 0.4 * a * math.tanh(x[d] - n * 0.5) + math.cos(40.0 * t + d + a))


def cost(name, x, t):
    s = sum((i + 1) * v for i, v in enumerate(x))
    return _now["offset"] + _now["scale"][3] * (300.0 * math.sin(0.9 * s + 35.0 * t) + 150.0 * math.cos(1.7 * x[-1]))
