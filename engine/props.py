"""The properties, as bodies over either domain, and the configurations (bounds) they are decided for."""
from fractions import Fraction

import numpy as np

from . import problem as pb
from .dom import FORMS
from .problem import problem

NP, TO = "np", "torch"
SE = "DeterministicParticleFlowControl.score_estimators."
F_NP, F_TO, F_OLD = SE + "score_function_estimators", SE + "score_function_estimators_pytorch", SE + "score"


class Check:
    def __init__(self, pid, body, configs, **opts):
        self.id, self.body, self.configs, self.opts = pid, body, configs, opts


CHECKS = {}


def check(pid, configs, **opts):
    def deco(f):
        CHECKS[pid] = Check(pid, f, configs, **opts)
        return f
    return deco


def C(backend=NP, dim=2, N=3, M=2, n=4, **k):
    return dict(backend=backend, dim=dim, N=N, M=M, n=n, **k)


def both(*cfgs):
    return [dict(c, backend=b) for c in cfgs for b in (NP, TO)]


def spread(modes, n=3, N=(5, 7, 10, 16, 33, 64, 100, 130, 257), M=(3, 5, 10, 33, 64, 101, 150), dims=(5, 6, 7, 8, 9, 10, 12, 16), steps=(7, 10, 13, 50, 101, 200), **k):
    """one size large at a time, the modes and the backends taking turns; reweighting keeps few particles"""
    out = []
    turn = 0
    for key, sizes in (("dim", dims), ("N", N), ("M", M), ("n", steps)):
        for v in sizes:
            for r in range(2 if len(modes) > 1 else 1):
                m = modes[(turn + r) % len(modes)]
                rw = m.get("rw")
                if rw and (key == "N" and v > 16 or key == "n" and v > 50):
                    continue
                c = dict(dim=2 if rw else 1 + turn % 2, N=2, M=1, n=n)
                if key in ("N", "M"):
                    c["dim"] = 2 if rw else 1
                c[key] = v
                out += both(C(**dict(c, **m, **k))) if len(modes) == 1 or r == 0 else [C((NP, TO)[turn % 2], **dict(c, **m, **k))]
            turn += 1
    return out


def ints(modes, **k):
    """end points, start time and noise strength given as integers"""
    out = []
    for t, m in enumerate(modes):
        out += both(C(**dict(dict(dim=2, N=3, M=2, n=4, form="int", gint=True, t1int=True), **m, **k)))
        out += [C((NP, TO)[t % 2], **dict(dict(dim=3, N=2, M=1, n=3, form=(("int", "array"), ("array", "int"))[(t + 1) // 2 % 2]), **m, **k))]
    out += [C(b, **dict(dict(dim=2, N=2, M=1, n=3, form=f, gint=True), **modes[i % len(modes)], **k)) for i, (b, f) in enumerate(((TO, "inttensor"), (TO, "intlist"), (NP, "intlist")))]
    out += [C(b, **dict(dict(dim=2, N=2, M=1, n=3, form=f), **modes[i % len(modes)], **k)) for i, (b, f) in enumerate(((NP, "list"), (TO, "list"), (NP, ("list", "array")), (NP, ("array", "tuple")), (TO, ("tuple", "tensor"))))]
    out += [C(b, **dict(dict(dim=3, N=2, M=1, n=3, form=f), **modes[i % len(modes)], **k)) for i, (b, f) in enumerate(((NP, "fortran"), (TO, "ttensor")))]
    return out


def rets(modes, **k):
    """drifts and costs that hand out their own argument (f(x, t) = x, U(x, t) = x[0]) or one array they keep"""
    return [C(b, **dict(dict(dim=2, N=3, M=2, n=4, ret=r), **m, **k)) for m in modes for b in (NP, TO) for r in ("own", "const")]


def publish(D, p, *more):
    D.out("Z", p.Z)
    D.out("B", p.B)
    if p.Ztr is not None:
        D.out("Ztr", p.Ztr)
    for name, a in more:
        D.out(name, a)


# ================================================================ C01
def c01_configs(tier):
    out = both(C(dim=2, N=3, n=3), C(dim=1, N=2, n=1), C(dim=3, N=2, n=2, rw=True, bb=True), C(dim=2, N=4, n=5, det=False))
    out += both(C(dim=1, N=2, n=40, M=1), C(dim=4, N=2, n=2, form="array"), C(dim=5, N=1, n=1, M=1))
    out += both(*[C(dim=1, N=2, M=1, n=n, det=False) for n in (7, 10, 13, 100)])
    out += both(*[C(dim=1, N=2, M=1, n=n, det=False) for n in (4, 6, 8, 9, 11, 16, 25, 50, 64, 75, 128, 150, 250, 256, 400, 750, 1000)])
    out += spread([dict(det=False), dict()], n=2, steps=(17, 200, 300, 500), N=(7, 50, 130, 300))
    out += ints([dict(det=False)], n=6) + ints([dict()], n=37)
    if tier == "thorough":
        out += both(*[C(dim=1, N=2, M=1, n=n, det=False) for n in range(2, 200)])
        out += both(*[C(dim=1, N=2, M=1, n=n, det=False) for n in (200, 333, 500, 1000, 2000)])
        out += both(C(dim=7, N=3, n=3), C(dim=2, N=12, n=6, M=3), C(dim=1, N=60, n=2, det=False))
    return out


@check("C01", c01_configs)
def c01(D, cfg):
    e = D.num("e", "small", bound=Fraction(1, 10 ** 5))
    p = problem(D, cfg, t2_shift=e)
    if not pb.shapes(p):
        return
    slack = Fraction(1, 10 ** 4)
    for j in range(p.k):
        D.near("timegrid[%d]" % j, p.grid[j], pb.time(p, j), slack)
        if j:
            D.ok("timegrid[%d] > timegrid[%d]" % (j, j - 1), p.grid[j] > p.grid[j - 1])
    D.out("grid", p.grid)


# ================================================================ C02
MODES = [dict(det=True), dict(det=False), dict(det=True, rw=True), dict(det=False, rw=True), dict(det=True, rw=True, bb=True)]


def c02_configs(tier):
    out = both(*[C(dim=2, N=3, n=4, **m) for m in MODES])
    out += both(*[C(dim=3, N=2, n=2, **m) for m in MODES])
    out += both(*[C(dim=1, N=2, n=3, M=1, **m) for m in MODES[:2]])
    out += both(*[C(dim=4, N=2, n=1, M=1, **m) for m in (MODES[0], MODES[1], MODES[4])])
    out += both(C(dim=2, N=12, n=2, **MODES[0]), C(dim=2, N=12, n=2, **MODES[1]), C(dim=1, N=2, M=1, n=60))
    out += spread(MODES, N=(5, 7, 10, 16, 64, 130, 300, 600)) + ints(MODES)
    if tier == "thorough":
        out += both(*[C(dim=2, N=5, n=20, **m) for m in MODES])
        out += both(*[C(dim=6, N=2, n=3, **m) for m in MODES])
        out += both(C(dim=1, N=2, M=1, n=1000), C(dim=1, N=80, M=2, n=2))
    return out


@check("C02", c02_configs)
def c02(D, cfg):
    p = problem(D, cfg)
    if pb.shapes(p):
        pb.endpoints(p)
    publish(D, p)


# ================================================================ C03, C05, C06, C07, C04, C23
def flow_configs(tier, modes, long=400, wide=24, big=()):
    big = list(big)
    ms = modes
    m0 = modes[0]
    out = both(*[C(dim=2, N=3, n=6, **m) for m in ms])
    out += both(*[C(dim=3, N=4, M=3, n=3, **m) for m in ms])
    out += both(*[C(dim=1, N=4, M=3, n=5, **m) for m in ms if not m.get("rw")])
    out += both(*[C(dim=4, N=2, M=1, n=3, **m) for m in ms])
    out += both(C(dim=2, N=2, M=2, n=24, **m0))
    if long:
        out += both(C(dim=1 if not m0.get("rw") else 2, N=2, M=1, n=long, **m0))
    if wide:
        out += both(C(dim=2, N=wide, M=4, n=3, **m0))
    out += spread(ms) + ints(ms) + rets(ms) + big
    if tier == "thorough":
        out += both(*[C(dim=2, N=3, M=3, n=16, **m) for m in ms])
        out += both(*[C(dim=5, N=3, M=2, n=3, **m) for m in ms])
        out += both(C(dim=1 if not m0.get("rw") else 2, N=2, M=1, n=1100 if long else 120, **m0))
        out += both(C(dim=2, N=max(wide, 12) * 4, M=3, n=2, **m0), C(dim=2, N=3, M=40, n=2, **m0))
    return out


@check("C03", lambda tier: flow_configs(tier, [dict(det=True)], big=[C(TO, dim=1, N=1001, M=1, n=2), C(NP, dim=1, N=520, M=1, n=3), C(NP, dim=2, N=101, M=40, n=3), C(TO, dim=3, N=60, M=25, n=2), C(TO, dim=2, N=3, M=3, n=150)]))
def c03(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    for d in range(p.dim):
        for i in range(p.N):
            D.eq("Z[%d,%d,0]" % (d, i), p.Z[d, i, 0], p.y1[d])
    pb.forward(p)
    publish(D, p)


@check("C05", lambda tier: flow_configs(tier, [dict(det=True), dict(det=True, rw=True), dict(det=True, rw=True, bb=True)],
                                               big=[C(NP, dim=1, N=600, M=1, n=3), C(TO, dim=1, N=401, M=1, n=3), C(TO, dim=2, N=60, M=40, n=3), C(NP, dim=3, N=30, M=25, n=3), C(NP, dim=2, N=3, M=3, n=150)]))
def c05(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    pb.backward(p)
    publish(D, p)


@check("C06", lambda tier: flow_configs(tier, [dict(det=False), dict(det=False, rw=True)], big=[C(NP, dim=1, N=600, M=1, n=3, det=False), C(TO, dim=1, N=1001, M=1, n=2, det=False), C(TO, dim=2, N=60, M=40, n=3, det=False), C(NP, dim=2, N=3, M=2, n=150, det=False)]))
def c06(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    if p.rw:
        pb.forward(p, pre=True)
    else:
        pb.forward(p)
    pb.backward(p)
    publish(D, p)


def c04_configs(tier):
    ms = [dict(det=True, rw=True), dict(det=False, rw=True), dict(det=True, rw=True, bb=True)]
    out = both(*[C(dim=2, N=3, n=5, **m) for m in ms])
    out += both(*[C(dim=3, N=4, n=3, **m) for m in ms])
    out += both(C(dim=2, N=2, n=4, M=1, **ms[0]), C(dim=4, N=3, M=1, n=2, **ms[1]), C(dim=2, N=8, n=2, **ms[0]),
                C(dim=2, N=2, M=1, n=60, **ms[1]), C(dim=2, N=2, M=1, n=30, **ms[0]))
    out += spread(ms, N=(5, 6, 7, 10, 12, 14), M=(5, 33), steps=(7, 10, 13, 50)) + ints(ms) + rets(ms)
    out += [C(NP, dim=2, N=160, M=1, n=1, **ms[0]), C(TO, dim=2, N=130, M=1, n=1, **ms[1]), C(NP, dim=2, N=70, M=1, n=1, **ms[1]), C(TO, dim=2, N=70, M=1, n=1, **ms[2])]
    out += [C(NP, dim=2, N=20, M=1, n=2, **ms[1]), C(TO, dim=2, N=20, M=1, n=2, **ms[0]), C(TO, dim=2, N=2, M=1, n=130, **ms[1]), C(NP, dim=2, N=2, M=1, n=110, **ms[0])]
    if tier == "thorough":
        out += [C(b, dim=2, N=30, M=1, n=2, **m) for b, m in ((NP, ms[0]), (TO, ms[1]))]
        out += both(*[C(dim=2, N=3, n=12, **m) for m in ms])
        out += both(*[C(dim=5, N=4, n=2, **m) for m in ms])
        out += both(C(dim=2, N=2, M=1, n=400, **ms[1]), C(dim=2, N=14, n=2, **ms[1]), C(dim=3, N=14, n=2, **ms[0]))
    return out


@check("C04", c04_configs)
def c04(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    pb.forward(p)
    publish(D, p)


def c07_configs(tier):
    m = dict(det=True, rw=True, bb=True)
    out = both(C(dim=2, N=3, n=14, q=[[6], [8], [3], [11]], **m), C(dim=3, N=3, M=3, n=13, q=[[7], [2]], **m), C(dim=2, N=4, n=4, q=[[2]], **m),
               C(dim=4, N=2, M=1, n=3, q=[[1]], **m), C(dim=2, N=2, M=1, n=40, q=[[20], [38]], **m), C(dim=2, N=8, n=3, q=[[1]], **m))
    out += spread([m], N=(5, 6, 10, 12), M=(5, 33), steps=(7, 10, 50), q=[[1, 1], [2, 2]])
    out += ints([m], q=[[1, 1], [2, 2]]) + rets([m], q=[[1, 1], [3, 2]]) + query_ints([m], n=13, q=[[7, 2], [1, 2]])
    out += both(C(dim=2, N=2, M=1, n=13, q=[[i, 1] for i in range(1, 13)], **m), C(dim=2, N=2, M=1, n=14, q=[[7, 5], [1, 5], [8, 2]], **m))
    if tier == "thorough":
        out += both(C(dim=2, N=3, n=30, q=[[i] for i in range(1, 30)], **m), C(dim=5, N=3, n=13, q=[[7], [5], [9]], **m),
                    C(dim=2, N=2, M=1, n=300, q=[[100], [294], [295]], **m))
    return out


@check("C07", c07_configs)
def c07(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    pb.forward(p, "Ztr")
    pb.forward(p, "Z")
    pb.backward(p)
    us = []
    for n, (i, *K) in enumerate(cfg["q"]):
        x = D.arr("x%d" % n, (K[0] if K else 2, p.dim), kind_of(cfg.get("qform")))
        u = control(p, x, i)
        control_law(p, "u(., %d)" % i, u, x, i)
        us.append(("u%d" % n, u))
    publish(D, p, *us)


def c23_configs(tier):
    out = both(*[C(dim=1 if not m.get("rw") else 2, N=2, M=1, n=n, **m) for m in MODES for n in (2, 3, 9)])
    out = both(C(dim=1, N=2, M=1, n=2200), C(dim=1, N=2, M=1, n=2100, det=False)) + out
    out += both(C(dim=2, N=2, M=1, n=110, det=True, rw=True), C(dim=1, N=2, M=1, n=600), C(dim=1, N=2, M=1, n=1024, det=False))
    out += both(C(dim=2, N=3, M=2, n=50))
    if tier == "thorough":
        out += both(*[C(dim=2, N=2, M=1, n=n, **m) for m in MODES for n in (4, 5, 6, 7, 8, 10, 11, 12, 16, 20, 32, 64, 101)])
        out = both(C(dim=1, N=2, M=1, n=5200), C(dim=1, N=2, M=1, n=5200, det=False), C(dim=2, N=2, M=1, n=520, det=False, rw=True)) + out
    return out


@check("C23", c23_configs)
def c23(D, cfg):
    p = problem(D, cfg)
    if not pb.shapes(p):
        return
    pb.forward(p)
    if p.Ztr is not None and p.det:
        pb.forward(p, "Ztr")
    pb.backward(p)
    pb.endpoints(p)
    publish(D, p)


# ================================================================ controls
def control(p, x, i, form=None):
    D = p.D
    form = form or p.cfg.get("qform") or ("tensor" if p.torch else "array")
    u = p.obj.calculate_u(D.give(x, form, p.cfg.get("device", "cpu") if form in ("tensor", "inttensor", "ttensor") else "cpu"), i)
    return D.host(u)


def interior(p, i):
    return 6 <= i <= p.k - 6


def control_law(p, lab, u, x, i):
    D = p.D
    K = len(x)
    if not D.shape(lab, u, (p.dim, K)):
        return
    Fw = p.Ztr if p.brown else p.Z
    b, z = p.B[:, :, i], Fw[:, :, i]
    if interior(p, i):
        score_difference(p, lab, u, x, b, z)
    else:
        gaussian_difference(p, lab, u, x, b, z)


def gaussian_difference(p, lab, u, x, b, z):
    D = p.D
    dd = 1 if p.torch else 0
    for d in range(p.dim):
        mb, vb = D.mean(list(b[d])), D.var(list(b[d]), dd)
        mz, vz = D.mean(list(z[d])), D.var(list(z[d]), dd)
        for j in range(len(x)):
            tb, tz = (x[j][d] - mb) / vb, (x[j][d] - mz) / vz
            D.eq("%s[%d,%d] Gaussian fits" % (lab, d, j), u[d, j], tz - tb, scale=None if D.sym else abs(tb) + abs(tz), tol=1e-7)


def score_difference(p, lab, u, x, b, z):
    D = p.D
    q = np.asarray(x, dtype=object).T
    SB = D.score_sets(lab + ", backward cloud", b, q)
    SF = D.score_sets(lab + ", forward cloud", z, q)
    if SB is None or SF is None:
        return
    for d in range(p.dim):
        pairs = [(zb, sb, zf, sf) for zb, sb in SB[d] for zf, sf in SF[d] if zb.shape == zf.shape and
                 np.allclose(D.vals(zb), D.vals(zf), rtol=1e-9, atol=1e-12)]
        if not pairs:
            D.fail("%s: inducing points of coordinate %d" % (lab, d), "backward and forward estimates use different inducing points")
            continue
        for zb, _, zf, _ in pairs[:1]:
            D.eqs(lab + ": same inducing points", zb, zf)
        for j in range(len(x)):
            D.eq_any("%s[%d,%d]" % (lab, d, j), u[d, j], [sb[j] - sf[j] for _, sb, _, sf in pairs],
                     scale=None if D.sym else max(abs(float(sb[j])) + abs(float(sf[j])) for _, sb, _, sf in pairs))


def points(p, n, K, far=False):
    """query points: free symbols, or a particle of a cloud, which is the same as free inside the clouds"""
    return p.D.arr("x%d" % n, (K, p.dim), kind_of(p.cfg.get("qform")))


def query_ints(modes, **k):
    return [C(b, **dict(dict(dim=2, N=3, M=2, n=4, qform=f), **m, **k)) for b, f in ((NP, "int"), (TO, "inttensor"), (NP, "fortran"), (TO, "ttensor")) for m in modes]


def c08_configs(tier):
    q = [[6, 1], [7, 3], [8, 2]]
    out = both(*[C(dim=2, N=3, n=13, q=q, **m) for m in MODES[:4]])
    out += both(C(dim=1, N=3, M=3, n=14, q=[[6, 2], [9, 1], [8, 4]]), C(dim=3, N=4, M=3, n=13, q=[[7, 3], [6, 2]]), C(dim=4, N=2, M=1, n=12, q=[[6, 4], [7, 1]]),
                C(dim=2, N=2, M=1, n=60, q=[[6, 2], [30, 1], [55, 2]]), C(dim=2, N=3, n=13, q=[[7, 12]]), C(dim=2, N=10, n=12, M=5, q=[[6, 2]]))
    out += both(*[C(dim=2, N=2, M=1, n=n, q=[[i, 1] for i in range(6, n - 4)]) for n in (11, 12, 15, 21)])
    out += spread(MODES[:4], n=12, N=(5, 10, 16, 33, 64, 100, 130), M=(3, 5, 10, 33, 64, 101), steps=(14, 20, 50, 101, 150), q=[[6, 2], [7, 1]])
    out += query_ints(MODES[:2], n=13, q=[[6, 2], [7, 1]]) + ints(MODES[:4], n=12, q=[[6, 2], [7, 1]])
    out += both(*[C(dim=2, N=3, n=13, q=[[6, K], [7, K], [7, 1]]) for K in (2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 33, 64, 100)])
    out += both(C(dim=1, N=2, M=1, n=200, q=[[6, 1], [7, 1], [50, 2], [100, 1], [101, 2], [128, 1], [192, 1], [193, 1], [194, 1]]), C(dim=1, N=2, M=1, n=12, q=[[6, 300]]))
    out += [C(NP, dim=1, N=260, M=1, n=12, det=False, q=[[6, 3]]), C(TO, dim=1, N=260, M=2, n=12, det=False, q=[[7, 2]]), C(TO, dim=2, N=60, M=40, n=12, det=False, q=[[6, 60]]), C(NP, dim=2, N=40, M=20, n=12, q=[[6, 40]])]
    if tier == "thorough":
        out += both(*[C(dim=2, N=3, n=24, q=[[i, 2] for i in range(6, 20)], **m) for m in MODES[:4]])
        out += both(C(dim=5, N=3, n=13, q=[[7, 5]]), C(dim=1, N=2, M=1, n=400, q=[[i, 1] for i in range(6, 396, 13)]), C(dim=2, N=24, M=3, n=12, q=[[6, 30]]))
    return out


@check("C08", c08_configs)
def c08(D, cfg):
    p = problem(D, cfg)
    us = []
    for n, (i, K) in enumerate(cfg["q"]):
        x = points(p, n, K)
        u = control(p, x, i)
        control_law(p, "u(., %d)" % i, u, x, i)
        us.append(("u%d" % n, u))
    publish(D, p, *us)


def c09_configs(tier):
    q = [[1, 2], [2, 1], [5, 3], [9, 2], [12, 1], [3, 1], [4, 1], [10, 1], [11, 1]]
    out = both(*[C(dim=2, N=3, n=13, q=q, **m) for m in MODES[:4]])
    out += both(C(dim=1, N=3, n=4, q=[[1, 2], [2, 1], [3, 1]]), C(dim=3, N=4, M=3, n=6, q=[[3, 3], [1, 1], [5, 2]]), C(dim=4, N=2, M=1, n=3, q=[[1, 4], [2, 1]]),
                C(dim=2, N=2, M=1, n=40, q=[[5, 1], [36, 1], [39, 1]]), C(dim=2, N=10, n=3, M=2, q=[[2, 2]]), C(dim=2, N=3, n=3, q=[[1, 12]]))
    out += both(*[C(dim=2, N=3, n=n, q=[[i, 1] for i in range(1, n) if i < 6 or i > n - 5]) for n in (2, 3, 5, 7, 8, 9, 10, 11, 12, 15, 21)])
    out += spread(MODES[:4], N=(5, 7, 10, 16, 33, 64, 100, 130, 200), M=(5, 33), steps=(50, 101), q=[[1, 2], [2, 1]])
    out += query_ints(MODES[:4], q=[[1, 2], [3, 1]]) + ints(MODES[:4], q=[[1, 2], [2, 1]])
    out += both(*[C(dim=2, N=3, n=3, q=[[1, K], [2, K], [2, 1]]) for K in (2, 3, 4, 5, 6, 8, 10, 16, 33, 64, 100, 300)])
    out += both(C(dim=1, N=2, M=1, n=200, q=[[5, 1], [196, 1], [197, 2], [199, 1]]), C(dim=2, N=2, M=1, n=101, q=[[1, 1], [5, 1], [97, 1], [100, 1]], det=False))
    if tier == "thorough":
        out += both(*[C(dim=3, N=3, n=13, q=[[i, 1] for i in (1, 2, 3, 4, 5, 9, 10, 11, 12)], **m) for m in MODES[:4]])
        out += both(C(dim=1, N=30, n=3, q=[[1, 1], [2, 5]]), C(dim=2, N=2, M=1, n=300, q=[[4, 1], [296, 2], [299, 1]]))
    return out


@check("C09", c09_configs)
def c09(D, cfg):
    c08(D, cfg)


# ================================================================ C10
def c10_configs(tier):
    out = both(C(dim=1, N=2, n=2, q=[[1, "free"]]), C(dim=1, N=3, n=3, q=[[2, "free"]]), C(dim=2, N=2, n=3, q=[[2, "free"]]), C(dim=2, N=3, n=3, q=[[1, "mid"]]),
               C(dim=2, N=3, n=4, q=[[2, "edge"]]), C(dim=3, N=3, n=2, q=[[1, "edge"]]), C(dim=3, N=2, n=2, q=[[1, "mid"]]), C(dim=1, N=3, n=2, q=[[0, "free"], [2, "free"]]),
               C(dim=1, N=3, n=14, M=1, q=[[7, "edge"], [7, "free"]]), C(dim=2, N=2, n=3, det=False, q=[[2, "mid"]]), C(dim=2, N=3, n=2, rw=True, q=[[1, "mid"]]),
               C(dim=2, N=2, n=3, rw=True, bb=True, q=[[2, "free"]]), C(dim=4, N=2, n=2, M=1, q=[[1, "mid"]]), C(dim=2, N=2, n=2, q=[[0, "at"], [2, "at"]]))
    out += both(*[C(dim=d, N=2, n=2, M=1, q=[[1, "mid"]]) for d in (5, 6, 7)], *[C(dim=d, N=2, n=2, M=1, q=[[1, "edge"]]) for d in (8, 12)])
    out += both(*[C(dim=1, N=N, n=2, M=1, q=[[1, "free"]], det=False) for N in (5, 8, 16, 33)], *[C(dim=2, N=N, n=2, M=1, q=[[1, "mid"]], det=False) for N in (6, 12)])
    out += both(C(dim=1, N=2, n=60, M=1, q=[[30, "free"], [54, "free"]], det=False), C(dim=2, N=2, n=20, M=1, q=[[6, "edge"], [14, "mid"]]), C(dim=1, N=2, n=120, M=1, det=False, q=[[100, "free"], [101, "free"]]))
    out += both(C(dim=1, N=2, n=3, q=[[2, "beside"], [1, "beside"]]), C(dim=2, N=2, n=2, M=1, q=[[1, "beside"]]), C(dim=3, N=3, n=2, M=1, det=False, q=[[1, "beside"]]))
    if tier == "thorough":
        out += both(C(dim=2, N=6, n=4, q=[[2, "edge"], [3, "free"]]), C(dim=4, N=4, n=3, q=[[1, "mid"], [2, "edge"]]), C(dim=1, N=4, n=40, M=1, q=[[i, "free"] for i in (1, 5, 6, 20, 35, 39)]))
    return out


@check("C10", c10_configs, paths=24, flips=12)
def c10(D, cfg):
    p = problem(D, cfg)
    for n, (i, how) in enumerate(cfg["q"]):
        z, b = p.Z[:, :, i], p.B[:, :, i]
        x = np.empty(p.dim, dtype=object)
        w = D.arr("x%d" % n, (p.dim,), **({"kind": "beside"} if how == "beside" else {}))
        for d in range(p.dim):
            if how == "free":
                x[d] = w[d]
            elif how == "mid":
                # around the middle of the overlap, at the scale of the clouds
                x[d] = D.name((D.mean(list(z[d])) + D.mean(list(b[d]))) * D.const(Fraction(1, 2)) + w[d] * p.g * D.const(Fraction(1, 20)))
            elif how in ("edge", "beside"):
                lo = D.max([D.min(list(z[d])), D.min(list(b[d]))])
                hi = D.min([D.max(list(z[d])), D.max(list(b[d]))])
                x[d] = (lo, hi, z[d, 0], b[d, -1])[(d + n) % 4] if how == "edge" else D.name((lo, hi)[(d + n) % 2] + w[d])
            else:
                x[d] = z[d, 0] if i == 0 else b[d, 0]
        cond = True
        for d in range(p.dim):
            for c in (z, b):
                cond = D.land(cond, x[d] >= D.min(list(c[d])), x[d] <= D.max(list(c[d])))
        r = p.obj.check_if_covered(D.give(x, "tensor" if p.torch else "array"), i)
        D.iff("check_if_covered(x, %d)" % i, r, cond)
    publish(D, p)


# ================================================================ C11
def c11_configs(tier):
    out = both(*[C(dim=2, N=3, n=5, **m) for m in MODES])
    out += both(*[C(dim=3, N=4, M=3, n=3, **m) for m in MODES[:2] + MODES[4:]])
    out += both(C(dim=1, N=3, M=2, n=13, q=[[6, 2], [7, 1]]), C(dim=2, N=3, M=2, n=14, q=[[6, 1], [8, 2]]), C(dim=2, N=3, M=2, n=12, rw=True, bb=True, q=[[6, 2]]),
                C(dim=2, N=12, M=2, n=3), C(dim=2, N=2, M=9, n=3), C(dim=4, N=2, M=1, n=3), C(dim=1, N=2, M=1, n=120))
    out += spread(MODES, M=(3, 5, 10, 33, 64, 101)) + ints(MODES) + query_ints(MODES[:2], n=13, q=[[6, 2], [7, 1]])
    out += both(C(dim=1, N=2, M=1, n=300), C(dim=2, N=16, M=12, n=12, q=[[6, 2]]), C(dim=2, N=3, M=33, n=12, q=[[6, 1]], det=False), C(dim=1, N=2, M=1, n=60, q=[[6, 1], [30, 1], [54, 1]]))
    out += [C(TO, dim=2, N=300, M=2, n=2), C(NP, dim=2, N=300, M=2, n=2)]
    if tier == "thorough":
        out += both(*[C(dim=2, N=3, M=3, n=14, q=[[6, 1], [7, 2], [8, 1]], **m) for m in MODES])
        out += both(C(dim=5, N=3, n=3), C(dim=2, N=40, M=3, n=2), C(dim=2, N=3, M=60, n=2), C(dim=1, N=2, M=1, n=500, det=False))
    return out


@check("C11", c11_configs)
def c11(D, cfg):
    p = problem(D, cfg)
    qs = {}
    us = []
    for n, (i, K) in enumerate(cfg.get("q", [])):
        x = points(p, n, K)
        m = len(D.scores())
        u = control(p, x, i)
        for r in range(m, len(D.scores())):
            qs[r] = i
        us.append(("u%d" % n, u))
    estimates(p, qs)
    publish(D, p, *us)


def clouds(p):
    out = []
    for which, A in (("Z", p.Z), ("B", p.B), ("Ztr", p.Ztr)):
        if A is None or (which == "Ztr" and not p.det):
            continue
        for t in range(1, p.k):
            out.append((which, t, A[:, :, t]))
    return out


def estimates(p, qs, skip=()):
    """length-scales, weight and inducing points of every estimate made for p; qs: record number -> control time index"""
    D = p.D
    dd = 1 if p.torch else 0
    C0 = D.const(Fraction(1, 1000))
    C2 = D.const(2)
    index = []
    for which, t, c in clouds(p):
        f, v = D._fp(c.T)
        index.append((f, v, which, t, c))
    stds = {}
    for n, rec in enumerate(D.scores()):
        if n in skip:
            continue
        X = rec["X"]
        if X.shape != (p.N, p.dim):
            D.fail("estimate %d" % n, "made from %s samples" % (X.shape,))
            continue
        f, v = D._fp(X)
        # length-scale and weight, whatever the cloud
        key = v.tobytes()
        if key not in stds:
            stds[key] = [D.std(list(X[:, d]), dd) for d in range(p.dim)]
        for d in rec["dims"] if len(rec["dims"]) == 1 else range(p.dim):
            D.eq("estimate %d: length-scale of coordinate %d is twice the deviation" % (n, d), rec["l"][d], C2 * stds[key][d])
        if len(rec["dims"]) == 1:
            for d in range(p.dim):
                if d not in rec["dims"]:
                    D.eq("estimate %d: length-scale of coordinate %d is twice the deviation" % (n, d), rec["l"][d], C2 * stds[key][d])
        D.eq("estimate %d: weight C" % n, rec["C"], C0)
        D.ok("estimate %d: %d inducing points" % (n, p.M), rec["Z"].shape == (p.M, p.dim), "%s" % (rec["Z"].shape,))
        if rec["Z"].shape != (p.M, p.dim):
            continue
        hits = [(w, t, c) for g, u, w, t, c in index if D.close(f, g, 1e-7) and np.allclose(u, v, rtol=1e-8, atol=1e-10)]
        if not hits:
            continue          # not an estimate for a flow: the flow properties decide whether anything depends on it
        if len(hits) > 1:
            hits = [h for h in hits if D.elsewhere(X, h[2].T)] or hits
        fp = D._fp(rec["Z"])[0]
        for q, _ in rec["evals"][:1]:
            # equal clouds (a flow that stands still) may stand for several times: the one whose box explains the points
            h = None
            for h1 in hits:
                role, spans = box_of(p, h1, q, n in qs, rec["Z"])
                if all(D.in_box(rec["Z"][m, d], *spans[d]) for m in range(p.M) for d in range(p.dim)):
                    h = h1
                    break
            if h is None:
                h = hits[0]
                role, spans = box_of(p, h, q, n in qs, rec["Z"])
            w, t, c = h
            D.eqs("estimate %d: samples" % n, X, c.T)
            for d in range(p.dim):
                for m in range(p.M):
                    D.box("estimate %d (%s of %s at %d): inducing point %d, coordinate %d" % (n, role, w, t, m, d), rec["Z"][m, d], *spans[d],
                          where=(p.tag, round(fp, 9), m, d))


def box_of(p, hit, q, control, Z):
    """the role of an estimate for the cloud, and the box of its inducing points in every coordinate"""
    D = p.D
    w, t, c = hit
    z, b = p.Z[:, :, t], p.B[:, :, t]
    fw = p.Ztr if p.brown else p.Z
    if control:
        role = "control"
    elif q.shape == (p.N, p.dim) and D.close(D._fp(q)[0], D._fp(b.T)[0], 1e-7) and np.allclose(D.vals(q), D.vals(b.T), rtol=1e-8, atol=1e-10):
        role = "backward"
    else:
        role = "forward"
    spans = []
    for d in range(p.dim):
        if role == "forward":
            spans.append((D.min(list(c[d])), D.max(list(c[d]))))
            continue
        zz, bb = list((z if role == "backward" else fw[:, :, t])[d]), list(b[d])
        if role == "backward" and p.torch and (t == p.k - 1 or not D.sym and max(bb) == min(bb)):
            spans.append((D.min(zz), D.max(zz)))
        elif p.torch:
            lo, hi = D.min([D.min(zz), D.min(bb)]), D.max([D.max(zz), D.max(bb)])
            if role == "backward" and D.sym and any(D.has_choice(z) for z in Z[:, d]):
                # the code does not branch on the backward cloud being one point, it selects
                one = D.max(bb).__eq__(D.min(bb))
                lo, hi = D.ite(one, D.min(zz), lo), D.ite(one, D.max(zz), hi)
            spans.append((lo, hi))
        else:
            spans.append((D.max([D.min(zz), D.min(bb)]), D.min([D.max(zz), D.max(bb)])))
    return role, spans


# ================================================================ the estimators themselves
def kern(D, a, b, l):
    """K matrix, lists"""
    n, m, dim = a.shape[0], b.shape[0], a.shape[1]
    K = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = None
            for d in range(dim):
                t = (a[i, d] - b[j, d]) / l[d]
                s = t * t if s is None else s + t * t
            K[i, j] = D.exp(s * D.const(Fraction(-1, 2)))
    return K


def mm(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = None
            for k in range(a.shape[1]):
                x = a[i, k] * b[k, j]
                s = x if s is None else s + x
            out[i, j] = s
    return out


def eye_plus(D, A, c):
    A = A.copy()
    for i in range(A.shape[0]):
        A[i, i] = A[i, i] + c
    return A


def estimate(D, X, Z, l, C0, x):
    """K x dim: the closed form of the property"""
    M, dim = Z.shape
    jit = D.const(Fraction(1, 1000))
    Kxz = kern(D, X, Z, l)
    Ki = D.inv(eye_plus(D, kern(D, Z, Z, l), jit))
    h = np.empty((M, dim), dtype=object)
    for m in range(M):
        for d in range(dim):
            s = None
            for n in range(X.shape[0]):
                t = (X[n, d] - Z[m, d]) * Kxz[n, m]
                s = t if s is None else s + t
            h[m, d] = -s / (l[d] * l[d])
    A = mm(Ki, mm(Kxz.T, Kxz))
    W = mm(D.inv(eye_plus(D, A, C0 + jit)), mm(Ki, h))
    out = mm(kern(D, x, Z, l), W)
    for i in np.ndindex(*out.shape):
        out[i] = -out[i]
    return out


EST = {"np_dim": (F_NP, "score_function_multid_seperate", "dim"), "np_old": (F_NP, "score_function_multid_seperate_old", "dim"),
       "np_legacy": (F_OLD, "score_function_multid_seperate2", "dim"), "np_all": (F_NP, "score_function_multid_seperate_all_dims", "all"),
       "torch": (F_TO, "torched_score_function_multid_seperate_all_dims", "torch")}


class Data:
    pass


def kind_of(form):
    return "int" if form in FORMS else "real"


def est_data(D, cfg, tag=""):
    e = Data()
    e.dim, e.N, e.M, e.K = cfg["dim"], cfg["N"], cfg["M"], cfg.get("K", 2)
    forms = cfg.get("forms") or ("array",) * 4
    e.X = D.arr("X" + tag, (e.N, e.dim), kind_of(forms[0]))
    e.Z = D.arr("S" + tag, (e.M, e.dim), kind_of(forms[1]))
    if cfg.get("alias"):            # inducing points taken from the samples, in the same memory
        e.Z = {"same": e.X, "head": e.X[:e.M], "query": e.Z}[cfg["alias"]]
    e.x = e.X if cfg.get("alias") == "query" else D.arr("x" + tag, (e.K, e.dim), kind_of(forms[3]))
    e.scalar = cfg.get("l", "vector") == "scalar"
    kl = "posint" if forms[2] in FORMS else "pos"
    e.l0 = D.num("l" + tag, kl) if e.scalar else D.arr("l" + tag, (e.dim,), kl)
    e.l = [e.l0] * e.dim if e.scalar else list(e.l0)
    e.C = D.num("C" + tag, "range", range=(1e-3, 0.3)) if cfg.get("C", "free") == "free" else None
    return e


def fit(D, cfg, which, e, fn, forms=None, l=None, X=None, Z=None, x=None, C0=None, **more):
    """K x dim estimate by the implementation"""
    mod, name, kind = EST[which]
    f = getattr(D.module(mod), name)
    tor = kind == "torch"
    forms = forms or cfg.get("forms") or (("tensor",) * 4 if tor else ("array",) * 4)
    X, Z, x = (e.X if X is None else X), (e.Z if Z is None else Z), (e.x if x is None else x)
    l0 = e.l0 if l is None else l
    if np.ndim(l0):
        l0 = D.give(np.asarray(l0, dtype=object), forms[2])
    elif forms[2] == "tensor" and tor and cfg.get("scalar_tensor"):
        l0 = D.give(l0, "tensor")
    elif forms[2] in FORMS:
        l0 = D.give(l0, "int")
    kw = dict(func_out=fn, l=l0)
    C0 = e.C if C0 is None else C0
    if C0 is not None:
        kw["C"] = C0
    kw.update(more)
    Xg = D.give(X, forms[0])
    al = cfg.get("alias")
    Zg = Xg if al == "same" else Xg[:len(Z)] if al == "head" else D.give(Z, forms[1])
    if tor and cfg.get("device"):
        kw["device"] = cfg["device"]

    def one(**k):
        if cfg.get("again"):            # the caller overwrites arrays it has already used once
            before = [D.arr("before" + n, np.shape(a)) for n, a in (("X", X), ("S", Z), ("x", x))]
            X1, Z1, x1 = (D.give(a, forms[n]) for a, n in zip(before, (0, 1, 3)))
            r = f(X1, Z1, **dict(kw, **k))
            if fn:
                r(x1)
            X1[:], Z1[:] = Xg, Zg
            r = f(X1, Z1, **dict(kw, **k))
            if fn:
                r(x1)
                x1[:] = D.give(x, forms[3])
                r = r(x1)
            return D.host(r)
        r = f(Xg, Zg, **dict(kw, **k))
        if fn:
            r = r(Xg if al == "query" else D.give(x, forms[3]))
        return D.host(r)
    if kind == "dim":
        rows = len(x) if fn else len(X)
        cols = [one(which_dim=d + 1) for d in range(e.dim)]
        for d, c in enumerate(cols):
            if c.shape not in ((rows,), (rows, 1)):
                D.fail("%s output" % which, "shape %s for %d points" % (c.shape, rows))
        return np.stack([c.reshape(-1) for c in cols], axis=1)
    return one()


def est_spread(w, more=(), Ns=(5, 7, 10, 16, 33, 64, 101), Ms=(4, 5, 6, 8), Ks=(1, 3, 4, 10, 33, 64, 101), dims=(5, 6, 7, 8, 10, 12), same=True):
    """one size large at a time; sizes that coincide"""
    out = []
    for n, (d, N, M, K) in enumerate([(1, v, 1, 2) for v in Ns] + [(2, 5, 2, 2), (2, 8, 2, 2)] + [(2 if v < 8 else 1, 2, v, 2) for v in Ms] + [(2, 3, 2, v) for v in Ks] +
                                     [(v, 2, 1, 2) for v in dims] + [(v, 2, 2, 2) for v in dims[:3]] + ([(2, 2, 2, 2), (3, 3, 3, 3), (2, 3, 2, 3), (2, 3, 3, 1), (3, 2, 3, 2), (1, 1, 1, 1), (2, 1, 1, 1), (2, 1, 3, 2)] if same else [])):
        out.append(dict(dict(est=w, dim=d, N=N, M=M, K=K, l=("vector", "scalar")[n % 2], C=("free", "default")[n // 2 % 2]), **dict(more)))
    return out


def int_forms(which, **k):
    out = []
    for w in which:
        for n, f in enumerate((("int",) * 4, ("int", "array", "array", "array"), ("array", "int", "array", "array"), ("array", "array", "array", "int"), ("array", "array", "int", "array"))):
            out.append(dict(dict(est=w, dim=2, N=3, M=2, K=2, l="vector", forms=f), **k))
        out.append(dict(dict(est=w, dim=2, N=3, M=2, K=2, l="scalar", forms=("array", "array", "int", "array")), **k))
        out.append(dict(dict(est=w, dim=2, N=3, M=2, K=2, l="vector", forms=("fortran",) * 4 if w != "torch" else ("ttensor", "ttensor", "ttensor", "ttensor")), **k))
        out.append(dict(dict(est=w, dim=3, N=3, M=2, K=3, l="scalar", forms=("fortran", "array", "array", "fortran") if w != "torch" else ("ttensor", "fortran", "array", "ttensor")), **k))
    return out


def est_configs(tier, Ks=(2,), which=("np_dim", "np_old", "np_legacy", "np_all", "torch")):
    out = []
    for w in which:
        for l in ("vector", "scalar"):
            out.append(dict(est=w, dim=2, N=3, M=2, K=2, l=l))
        out.append(dict(est=w, dim=1, N=2, M=1, K=3, l="vector"))
        out.append(dict(est=w, dim=1, N=2, M=2, K=1, l="scalar", C="default"))
        out.append(dict(est=w, dim=3, N=2, M=1, K=1, l="vector", C="default"))
        out.append(dict(est=w, dim=3, N=4, M=1, K=2, l="scalar"))
        out.append(dict(est=w, dim=2, N=3, M=4, K=5, l="vector"))
        out.append(dict(est=w, dim=4, N=3, M=3, K=2, l="vector"))
        out.append(dict(est=w, dim=2, N=2, M=3, K=2, l="scalar"))
        out += est_spread(w)
        if tier == "thorough":
            out.append(dict(est=w, dim=1, N=3, M=12, K=2, l="vector"))
            out.append(dict(est=w, dim=1, N=300, M=1, K=2, l="vector"))
            out.append(dict(est=w, dim=2, N=3, M=2, K=300, l="scalar"))
            out.append(dict(est=w, dim=2, N=20, M=2, K=2, l="vector"))
            out.append(dict(est=w, dim=2, N=6, M=2, K=4, l="vector"))
            out.append(dict(est=w, dim=5, N=3, M=2, K=2, l="vector"))
            out.append(dict(est=w, dim=2, N=40, M=1, K=2, l="vector"))
            out.append(dict(est=w, dim=2, N=5, M=8, K=2, l="vector"))
            out.append(dict(est=w, dim=2, N=5, M=8, K=2, l="scalar"))
            out.append(dict(est=w, dim=8, N=2, M=1, K=2, l="vector"))
    for f in (("array", "array", "array", "array"), ("array", "array", "list", "array"), ("array", "tensor", "list", "array"), ("tensor", "array", "array", "tensor"), ("tensor", "tensor", "list", "tensor")):
        out.append(dict(est="torch", dim=2, N=3, M=2, K=2, l="vector", forms=f))
    out.append(dict(est="torch", dim=2, N=3, M=2, K=2, l="scalar", scalar_tensor=True))
    out.append(dict(est="np_dim", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "list", "array")))
    out.append(dict(est="np_dim", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "tuple", "array")))
    out.append(dict(est="np_all", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "tuple", "array")))
    out += [dict(est="torch", dim=2 + n, N=3, M=2, K=2, l="vector", forms=f) for n, f in enumerate((("array", "array", "tuple", "array"), ("tensor", "tensor", "tuple", "tensor"), ("tensor", "tensor", "array", "array")))]
    out += int_forms(which)
    for w in which:
        out += [dict(est=w, dim=2, N=3, M=3 if al == "same" else 2, K=3 if al == "query" else 2, l=l, alias=al) for al, l in (("same", "vector"), ("head", "scalar"), ("query", "vector"))]
        out += [dict(est=w, dim=2, N=3, M=2, K=2, l=l, again=True) for l in ("vector", "scalar")]
    out.append(dict(est="np_all", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "list", "array")))
    out.append(dict(est="np_legacy", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "tuple", "array")))
    out.append(dict(est="np_old", dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "tuple", "array")))
    return out


@check("C12", est_configs, stub=False, jit=True)
def c12(D, cfg):
    e = est_data(D, cfg)
    C0 = e.C if e.C is not None else D.const(Fraction(1, 1000))
    for fn in (False, True):
        got = fit(D, cfg, cfg["est"], e, fn)
        q = e.x if fn else e.X
        ref = estimate(D, e.X, e.Z, e.l, C0, q)
        D.est_eqs("%s %s" % (EST[cfg["est"]][1], "function" if fn else "at samples"), got, ref)
        D.out("fn" if fn else "direct", got)


# ---------------------------------------------------------------- C13
def c13_configs(tier):
    out = []
    for w in EST:
        out.append(dict(rel="function = direct", est=w, dim=2, N=3, M=2, l="vector"))
        out.append(dict(rel="function = direct", est=w, dim=2, N=3, M=4, l="scalar"))
        out.append(dict(rel="number = vector", est=w, dim=2, N=3, M=2, K=2, l="scalar"))
        out.append(dict(rel="number = vector", est=w, dim=3, N=2, M=3, K=2, l="scalar", C="default"))
        if w != "np_dim":
            out.append(dict(rel="same as np_dim", est=w, dim=2, N=3, M=2, K=2, l="vector"))
            out.append(dict(rel="same as np_dim", est=w, dim=3, N=3, M=3, K=2, l="vector"))
            out.append(dict(rel="same as np_dim", est=w, dim=2, N=3, M=2, K=2, l="scalar"))
            out.append(dict(rel="same as np_dim", est=w, dim=1, N=3, M=2, K=2, l="scalar", C="default"))
        out.append(dict(rel="default C", est=w, dim=2, N=3, M=2, K=2, l="vector"))
        for r in ("function = direct", "number = vector", "default C") + (("same as np_dim",) if w != "np_dim" else ()):
            small = dict(Ns=(5, 10, 33, 64), Ms=(4, 6), Ks=(1, 5, 33, 101), dims=(5, 6, 8, 12))
            for c in est_spread(w, dict(rel=r), **small):
                out.append(dict(c, l="scalar") if r == "number = vector" else dict(c, C="free") if r == "same as np_dim" else c)
        if tier == "thorough":
            out.append(dict(rel="function = direct", est=w, dim=4, N=4, M=3, l="vector"))
            out.append(dict(rel="number = vector", est=w, dim=1, N=4, M=2, K=2, l="scalar"))
            if w != "np_dim":
                out.append(dict(rel="same as np_dim", est=w, dim=5, N=3, M=6, K=3, l="vector"))
                out.append(dict(rel="same as np_dim", est=w, dim=2, N=30, M=1, K=3, l="vector"))
    for c in est_spread("torch", dict(rel="forms"), Ns=(5, 33), Ms=(4,), Ks=(1, 33), dims=(5, 8)):
        if c["l"] == "vector" and c["dim"] > 1:
            out.append(dict(c, forms=(("array", "array", "tuple", "array"), ("tensor", "array", "list", "tensor"))[len(out) % 2]))
    for f in (("array", "array", "tuple", "array"), ("tensor", "tensor", "tuple", "tensor"), ("tensor", "tensor", "list", "tensor"), ("tensor", "tensor", "array", "tensor"), ("array", "array", "array", "array"), ("array", "array", "list", "array"), ("array", "tensor", "list", "tensor")):
        out.append(dict(rel="forms", est="torch", dim=2, N=3, M=3, K=2, l="vector", forms=f))
    for w in ("np_dim", "np_old", "np_legacy", "np_all"):
        out += [c for c in int_forms([w], rel="forms") if c["forms"] != ("int",) * 4]
        for f in (("array", "array", "list", "array"), ("array", "array", "tuple", "array")):
            out.append(dict(rel="forms", est=w, dim=2, N=3, M=3, K=2, l="vector", forms=f))
    return out


@check("C13", c13_configs, stub=False, jit=True)
def c13(D, cfg):
    e = est_data(D, cfg)
    w, rel = cfg["est"], cfg["rel"]
    if rel == "function = direct":
        D.est_eqs("%s: function at the samples = direct" % w, fit(D, cfg, w, e, True, x=e.X), fit(D, cfg, w, e, False))
        return
    for fn in (False, True):
        how = "function" if fn else "direct"
        if rel == "number = vector":
            v = np.empty(e.dim, dtype=object)
            v[:] = [e.l0] * e.dim
            a, b = fit(D, cfg, w, e, fn), fit(D, cfg, w, e, fn, l=v)
        elif rel == "same as np_dim":
            a, b = fit(D, cfg, w, e, fn), fit(D, cfg, "np_dim", e, fn)
        elif rel == "default C":
            a, b = fit(D, cfg, w, e, fn, C0=D.const(Fraction(1, 1000))), fit(D, dict(cfg), w, no_C(e), fn)
        else:
            plain = dict(cfg)
            plain.pop("forms")
            a, b = fit(D, cfg, w, e, fn), fit(D, plain, w, e, fn)
        D.est_eqs("%s: %s (%s)" % (w, rel, how), a, b)


def no_C(e):
    r = Data()
    r.__dict__.update(e.__dict__)
    r.C = None
    return r


# ---------------------------------------------------------------- C14
def c14_configs(tier):
    out = []
    for w in EST:
        for rel in ("shift", "scale", "mirror", "reorder"):
            out.append(dict(rel=rel, est=w, dim=2, N=3, M=2, K=2, l="vector"))
            out.append(dict(rel=rel, est=w, dim=2, N=3, M=1, K=2, l="scalar", C="default"))
            out.append(dict(rel=rel, est=w, dim=3, N=3, M=3, K=1, l="vector", C="default"))
            out += est_spread(w, dict(rel=rel), Ns=(5, 10, 33, 64), Ms=(4, 6), Ks=(1, 5, 33), dims=(5, 6, 8, 12))
            if tier == "thorough":
                out.append(dict(rel=rel, est=w, dim=4, N=4, M=4, K=3, l="vector"))
                out.append(dict(rel=rel, est=w, dim=1, N=4, M=2, K=2, l="scalar"))
                out.append(dict(rel=rel, est=w, dim=2, N=20, M=1, K=2, l="vector"))
    return out


@check("C14", c14_configs, stub=False, jit=True)
def c14(D, cfg):
    e = est_data(D, cfg)
    w, rel = cfg["est"], cfg["rel"]
    for fn in (False, True):
        how = "%s: %s (%s)" % (w, rel, "function" if fn else "direct")
        a = fit(D, cfg, w, e, fn)
        if rel == "shift":
            s = D.arr("s", (e.dim,))
            mv = lambda A: np.array([[A[i, d] + s[d] for d in range(e.dim)] for i in range(len(A))], dtype=object)
            b = fit(D, cfg, w, e, fn, X=mv(e.X), Z=mv(e.Z), x=mv(e.x))
            D.est_eqs(how, b, a)
        elif rel == "scale":
            c = D.num("c", "pos")
            mv = lambda A: np.array([[A[i, d] * c for d in range(e.dim)] for i in range(len(A))], dtype=object)
            l = e.l0 * c if e.scalar else np.array([v * c for v in e.l0], dtype=object)
            b = fit(D, cfg, w, e, fn, X=mv(e.X), Z=mv(e.Z), x=mv(e.x), l=l)
            ab = np.array([[v / c for v in r] for r in a], dtype=object)
            D.est_eqs(how, b, ab)
        elif rel == "mirror":
            m = e.dim - 1
            mv = lambda A: np.array([[-A[i, d] if d == m else A[i, d] for d in range(e.dim)] for i in range(len(A))], dtype=object)
            b = fit(D, cfg, w, e, fn, X=mv(e.X), Z=mv(e.Z), x=mv(e.x))
            ab = np.array([[-v if d == m else v for d, v in enumerate(r)] for r in a], dtype=object)
            D.est_eqs(how, b, ab)
        else:
            o = [(i + 1) % e.N for i in range(e.N)]
            if e.N > 2:
                o[0], o[1] = o[1], o[0]
            b = fit(D, cfg, w, e, fn, X=e.X[o])
            D.est_eqs(how, b, a if fn else a[o])


# ================================================================ C15
def c15_configs(tier):
    out = []
    for dist in ("euclidean", "sqeuclidean", None):
        for order in ("forward", "reverse", "odd-even", "rotate"):
            out.append(dict(dist=dist, order=order, N=3, N2=4, dim=2))
        out.append(dict(dist=dist, order="forward", N=1, N2=1, dim=1))
        out += [dict(dist=dist, order="forward", N=3, N2=2, dim=2, form=f) for f in ("int", "array int", "int array", "fortran", "array fortran")]
        out.append(dict(dist=dist, order="forward", N=4, N2=2, dim=3))
        out.append(dict(dist=dist, order="forward", N=2, N2=5, dim=1))
        out.append(dict(dist=dist, order="odd-even", N=2, N2=2, dim=9))
        out.append(dict(dist=dist, order="reverse", N=12, N2=9, dim=2, light=True))
        out.append(dict(dist=dist, order="forward", N=40, N2=3, dim=1, light=True))
        out.append(dict(dist=dist, order="forward", N=3, N2=40, dim=2, light=True))
        out.append(dict(dist=dist, order="forward", N=2, N2=3, dim=2, same=True))
        out += [dict(dist=dist, order="forward", N=4, N2=n, dim=2, alias=al) for al in ("head", "tail") for n in (2, 4)]
        orders = ("forward", "reverse", "odd-even", "rotate")
        sizes = [(v, 2, 1) for v in (5, 7, 8, 16, 33, 64, 65, 100, 130, 257, 600)] + [(2, v, 1) for v in (5, 7, 8, 16, 33, 64, 65, 100, 130, 257, 600)] + \
                [(2, 3, v) for v in (3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 20, 32, 33, 64, 100, 130)] + [(2, 2, 2), (3, 3, 3), (3, 2, 3), (2, 3, 3), (1, 5, 2), (5, 1, 2), (33, 33, 1), (20, 20, 2), (64, 64, 1)]
        for k, (a, b, d) in enumerate(sizes):
            out.append(dict(dist=dist, order=orders[k % 4], N=a, N2=b, dim=d))
        for k, a in enumerate((3, 8, 16, 33)):
            out.append(dict(dist=dist, order=orders[k % 4], N=a, N2=a, dim=1 + k % 3, same=True))
        if tier == "thorough":
            for a in range(2, 40):
                for b in (2, 3, 17):
                    out.append(dict(dist=dist, order=orders[(a + b) % 4], N=a, N2=b, dim=1 + a % 4))
            out.append(dict(dist=dist, order="forward", N=1500, N2=1, dim=1))
            out.append(dict(dist=dist, order="rotate", N=70, N2=70, dim=2, light=True))
            out.append(dict(dist=dist, order="odd-even", N=5, N2=5, dim=40))
            out.append(dict(dist=dist, order="reverse", N=300, N2=2, dim=3, light=True))
            out.append(dict(dist=dist, order="forward", N=2, N2=300, dim=1, light=True))
    return out


@check("C15", c15_configs, stub=False, jit=True)
def c15(D, cfg):
    N, N2, dim = cfg["N"], cfg["N2"], cfg["dim"]
    forms = (cfg.get("form", "array").split() * 2)[:2]
    r, y = D.arr("r", (N, dim), kind_of(forms[0])), D.arr("y", (N2, dim), kind_of(forms[1]))
    if cfg.get("same"):
        y = r
        N2 = N
    cut = {"head": slice(0, N2), "tail": slice(N - N2, None)}.get(cfg.get("alias"))
    if cut:
        y = r[cut]
    o = D.arr("o", (N, N2))
    f = D.module(F_NP).my_cdist
    rg, og = D.give(r, forms[0]), D.give(o, "array")
    yg = rg if cfg.get("same") else rg[cut] if cut else D.give(y, forms[1])
    D.loops(cfg["order"])
    try:
        with D.racing([("r", rg), ("y", yg), ("out", og)], "my_cdist"):
            if cfg["dist"] is None:
                f(rg, yg, og)
            else:
                f(rg, yg, og, cfg["dist"])
    finally:
        D.loops("forward")
    out, r2, y2 = D.host(og), D.host(rg), D.host(yg)
    for i in range(N):
        for j in range(N2):
            s = None
            for d in range(dim):
                t = (r[i, d] - y[j, d]) * (r[i, d] - y[j, d])
                s = t if s is None else s + t
            D.eq("out[%d,%d]" % (i, j), out[i, j], s if cfg["dist"] == "sqeuclidean" else D.sqrt(s), tol=1e-7)
    D.eqs("r is unchanged", r2, r)
    D.eqs("y is unchanged", y2, y)
    D.out("out", out)


# ================================================================ C16, C17
K_TO = "DeterministicParticleFlowControl.kernels.RBF_pytorch"


RBF_SIZES = [(v, 2, 1) for v in (5, 8, 16, 33, 64, 101, 130, 300)] + [(2, v, 1) for v in (5, 8, 16, 33, 64, 101, 130, 300)] + \
            [(3, 2, v) for v in (5, 6, 7, 8, 10, 12, 16, 33)] + [(2, 2, 2), (3, 3, 3), (1, 1, 1), (1, 1, 3), (3, 1, 2), (2, 3, 3), (3, 2, 3), (20, 20, 2)]


def rbf_configs(tier):
    out = []
    for form in ("tensor", "array"):
        for l in ("scalar", "vector"):
            out.append(dict(form=form, l=l, N=3, M=2, dim=2, y=True))
            out.append(dict(form=form, l=l, N=3, M=3, dim=3, y=False))
            out.append(dict(form=form, l=l, N=1, M=4, dim=1, y=True))
            out.append(dict(form=form, l=l, N=9, M=7, dim=2, y=True))
            out.append(dict(form=form, l=l, N=2, M=2, dim=4, y=True, device="cpu"))
            for a, b, d in RBF_SIZES:
                out.append(dict(form=form, l=l, N=a, M=b, dim=d, y=True))
            for v in (1, 2, 5, 8, 16, 33):
                out.append(dict(form=form, l=l, N=v, M=v, dim=1 + v % 3, y=False))
            if tier == "thorough":
                out.append(dict(form=form, l=l, N=300, M=300, dim=1, y=True))
                out.append(dict(form=form, l=l, N=40, M=30, dim=3, y=True))
                out.append(dict(form=form, l=l, N=30, M=30, dim=2, y=False))
                out.append(dict(form=form, l=l, N=3, M=3, dim=20, y=True))
    out.append(dict(form="tensor", form2="array", l="vector", N=3, M=2, dim=2, y=True))
    out.append(dict(form="array", form2="tensor", l="scalar", N=3, M=2, dim=2, y=True))
    out.append(dict(form="array", l="vector", lform="tensor", N=3, M=2, dim=2, y=True))
    out += [dict(form="int", form2=f, l=l, N=3, M=2, dim=2, y=y, lform=lf) for f, l, y, lf in (("int", "vector", True, "array"), ("int", "scalar", False, "array"), ("array", "vector", True, "int"), ("int", "scalar", True, "int"))]
    out += [dict(form="array", form2="int", l="scalar", N=3, M=2, dim=2, y=True), dict(form="tensor", l="vector", N=3, M=2, dim=2, y=True, lform="int"), dict(form="array", l="vector", lform="list", N=3, M=2, dim=3, y=True), dict(form="tensor", l="vector", lform="tuple", N=3, M=2, dim=3, y=True)]
    out += [dict(form=f, form2=g, l=l, N=3, M=2, dim=2, y=True) for f, g, l in (("ttensor", "ttensor", "vector"), ("fortran", "fortran", "scalar"), ("ttensor", "tensor", "scalar"), ("array", "fortran", "vector"))]
    out += [dict(form=f, l="vector", N=3, M=3, dim=3, y=False, lform=f) for f in ("ttensor", "fortran")]
    out.append(dict(form="array", l="scalar", N=3, M=2, dim=2, y=True, defaults=True))
    out += [dict(form=f, l=l, N=3, M=(3 if al == "same" else 2), dim=2, y=True, alias=al) for f in ("tensor", "array") for l in ("scalar", "vector") for al in ("same", "head", "tail")]
    out += [dict(form=f, l=l, N=3, M=n, dim=2, y=y, again=g) for f in ("tensor", "array") for l in ("scalar", "vector") for n, y, g in ((2, True, "k"), (3, True, "g"), (3, False, "k"), (3, False, "g"))]
    return out


class Rbf:
    pass


def rbf(D, cfg, tag=""):
    e = Rbf()
    N, M, dim = cfg["N"], cfg["M"], cfg["dim"]
    e.dim = dim
    kw = {}
    if cfg.get("defaults"):
        e.l, e.v = [D.const(1)] * dim, D.const(1)
    else:
        e.v = D.num("v" + tag, "pos")
        if cfg["l"] == "vector":
            l = D.arr("l" + tag, (dim,), "posint" if cfg.get("lform") == "int" else "pos")
            e.l = list(l)
            kw.update(length_scale=D.give(l, cfg.get("lform", "array")), multil=True)
        else:
            l = D.num("l" + tag, "posint" if cfg.get("lform") == "int" else "pos")
            e.l = [l] * dim
            kw.update(length_scale=D.give(l, "int") if cfg.get("lform") == "int" else l)
        kw.update(signal_variance=e.v)
    if cfg.get("device"):
        kw["device"] = cfg["device"]
    e.k = D.module(K_TO).RBF(**kw)
    return e


def rbf_value(D, e, X, Y):
    K = kern(D, X, Y, e.l)
    for i in np.ndindex(*K.shape):
        K[i] = e.v * K[i]
    return K


def rbf_grad(D, e, X, Y):
    K = rbf_value(D, e, X, Y)
    G = np.empty(K.shape + (e.dim,), dtype=object)
    for i in range(K.shape[0]):
        for j in range(K.shape[1]):
            for d in range(e.dim):
                G[i, j, d] = (X[i, d] - Y[j, d]) * K[i, j] / (e.l[d] * e.l[d])
    return G


def rbf_data(D, cfg, tag):
    X = D.arr("X" + tag, (cfg["N"], cfg["dim"]), kind_of(cfg["form"]))
    Y = D.arr("Y" + tag, (cfg["M"], cfg["dim"]), kind_of(cfg.get("form2", cfg["form"]))) if cfg["y"] else None
    args = [D.give(X, cfg["form"])]
    al = cfg.get("alias")
    if al and Y is not None:        # the second argument shares the first one's memory
        cut = {"same": slice(None), "head": slice(0, cfg["M"]), "tail": slice(cfg["N"] - cfg["M"], None)}[al]
        args.append(args[0] if al == "same" else args[0][cut])
        return X, X[cut], args
    if Y is not None:
        args.append(D.give(Y, cfg.get("form2", cfg["form"])))
    return X, (X if Y is None else Y), args


@check("C16", rbf_configs, stub=False)
def c16(D, cfg):
    e = rbf(D, cfg)
    X, Y, args = rbf_data(D, cfg, "")
    if cfg.get("again"):        # the caller asks once more after overwriting the arrays
        _, _, first = rbf_data(D, cfg, "before")
        e.k.Kernel(*first)
        if cfg["again"] == "g":
            e.k.gradient_X(*first)
        for a, b in zip(first, args):
            a[:] = b
        args = first
    K = D.host(e.k.Kernel(*args))
    D.eqs("Kernel", K, rbf_value(D, e, X, Y))
    if not cfg["y"]:
        for i in range(len(X)):
            D.eq("diagonal %d" % i, K[i, i], e.v)
            for j in range(i):
                D.eq("symmetry %d,%d" % (i, j), K[i, j], K[j, i])
    D.out("K", K)


def c17_configs(tier):
    hist = ["g", "kg", "gg", "gkg", "Kg", "oKg", "kGg", "og", "gk"]
    out = []
    for form in ("tensor", "array"):
        for l in ("scalar", "vector"):
            for h in hist:
                out.append(dict(form=form, l=l, N=2, M=3, dim=2, y=True, hist=h))
            for h in ("Kg", "kk", "kgkg", "gkgk", "okog"):
                out.append(dict(form=form, l=l, N=3, M=3, dim=2, y=False, hist=h))
            for h in ("kxk", "xkg", "gxg", "kxgx"):
                out.append(dict(form=form, l=l, N=3, M=3, dim=2, y=True, hist=h))
            out.append(dict(form=form, l=l, N=3, M=2, dim=3, y=True, hist="kg"))
            out.append(dict(form=form, l=l, N=6, M=5, dim=1, y=True, hist="g"))
            out.append(dict(form=("array", "int")[form == "tensor"], form2=form, l=l, N=3, M=2, dim=2, y=True, hist="kg", lform=("int", "list")[form == "array" and l == "vector"]))
            out.append(dict(form="int", form2="int", l=l, N=3, M=3, dim=2, y=form == "array", hist="gk"))
            out.append(dict(form=("fortran", "ttensor")[form == "tensor"], l=l, N=3, M=2, dim=2, y=True, hist=("kg", "g")[l == "vector"]))
            for n, (a, b, d) in enumerate(RBF_SIZES):
                out.append(dict(form=form, l=l, N=a, M=b, dim=d, y=True, hist=("kg", "g", "gk")[n % 3]))
            for v in (1, 2, 5, 8, 16, 33):
                out.append(dict(form=form, l=l, N=v, M=v, dim=1 + v % 3, y=False, hist=("g", "kg")[v % 2]))
            for h in ("kkg", "ggkg", "KGkg", "oGkgg", "kgkgkg", "kxkgxgk"):
                out.append(dict(form=form, l=l, N=3, M=3, dim=2, y=True, hist=h))
            for y, h in ((True, "km"), (True, "gn"), (False, "knmg"), (False, "gn"), (True, "knkmn")):
                out.append(dict(form=form, l=l, N=3, M=(2, 3)[l == "vector"] if y else 3, dim=2, y=y, hist=h))
            for al in ("same", "head", "tail"):
                out.append(dict(form=form, l=l, N=3, M=(3 if al == "same" else 2), dim=2, y=True, alias=al, hist=("kg", "g")[l == "vector"]))
            if tier == "thorough":
                out.append(dict(form=form, l=l, N=100, M=90, dim=2, y=True, hist="kg"))
                out.append(dict(form=form, l=l, N=20, M=15, dim=3, y=True, hist="g"))
                for h in ("kkg", "ggkg", "KGkg", "oGkgg", "gKGk", "kgkgkg", "kxkgxgk"):
                    for y in (True, False):
                        out.append(dict(form=form, l=l, N=3, M=3, dim=2, y=y, hist=h))
    return out


@check("C17", c17_configs, stub=False)
def c17(D, cfg):
    """hist: k/g Kernel/gradient at new points of the same shape, K/G at points of another shape, o another kernel object,
    x/X Kernel/gradient of one set of points (the second argument left out), m/n Kernel/gradient with the arrays of the
    previous call, whose contents the caller has overwritten"""
    e = rbf(D, cfg)
    other = rbf(D, cfg, "o") if "o" in cfg["hist"] else None
    obj = e
    for n, h in enumerate(cfg["hist"]):
        if h == "o":
            obj = other
            continue
        c = dict(cfg, N=cfg["N"] + 1, M=cfg["M"] + 1) if h in "KG" else cfg
        if h in "KG" and cfg["M"] == cfg["N"] + 1:
            c = dict(cfg, N=cfg["N"] + 2, M=cfg["M"] + 2)
        if h in "xX":
            c = dict(c, y=not c["y"])
        last = args if h in "mn" else None
        X, Y, args = rbf_data(D, c, str(n))
        if last:
            for a, b in zip(last, args):
                a[:] = b
            args = last
        if h in "kKxm":
            D.eqs("call %d of %s: Kernel" % (n, cfg["hist"]), D.host(obj.k.Kernel(*args)), rbf_value(D, obj, X, Y))
        else:
            G = D.host(obj.k.gradient_X(*args))
            D.eqs("call %d of %s: gradient_X" % (n, cfg["hist"]), G, rbf_grad(D, obj, X, Y))
            D.out("G%d" % n, G)
        obj = e


# ================================================================ C18
R_NP = "DeterministicParticleFlowControl.reweighting.optimal_transport_reweighting"


def c18_configs(tier):
    out = [dict(N=n, dim=d, w=w) for n, d in ((2, 2), (3, 2), (4, 3), (3, 1), (5, 2), (1, 2), (8, 2), (3, 4)) for w in ("free",)]
    out += [dict(N=3, dim=2, w="column"), dict(N=3, dim=2, w="zero"), dict(N=4, dim=2, w="uniform"), dict(N=3, dim=2, w="twice"), dict(N=3, dim=2, w="again"), dict(N=5, dim=3, w="again"), dict(N=2, dim=2, w="point")]
    out += [dict(N=n, dim=d, w=w) for n, d, w in ((6, 2, "free"), (7, 1, "free"), (10, 2, "free"), (12, 2, "column"), (16, 2, "free"), (20, 3, "free"), (33, 1, "free"), (40, 2, "free"),
            (3, 5, "free"), (3, 6, "column"), (4, 7, "free"), (3, 8, "free"), (3, 10, "free"), (3, 12, "free"), (4, 4, "free"), (2, 3, "free"), (5, 5, "free"), (8, 8, "free"),
            (6, 3, "zero"), (10, 2, "zero"), (20, 2, "uniform"), (8, 3, "column"), (6, 2, "point"), (5, 1, "twice"), (8, 2, "twice"))]
    out += [dict(N=n, dim=d, w=w, form=f) for n, d, w, f in ((3, 2, "free", "fortran"), (5, 3, "column", "fortran"), (4, 2, "free", "int"), (3, 3, "free", "int"))]
    if tier == "thorough":
        out += [dict(N=64, dim=2, w="free"), dict(N=14, dim=2, w="free"), dict(N=4, dim=10, w="free"), dict(N=8, dim=3, w="column"), dict(N=20, dim=2, w="uniform"), dict(N=6, dim=3, w="zero")]
    return out


@check("C18", c18_configs)
def c18(D, cfg):
    f = D.module(R_NP).reweight_optimal_transport_multidim
    N, dim = cfg["N"], cfg["dim"]
    kept = None
    for rnd in range(2 if cfg["w"] in ("twice", "again") else 1):
        X = D.arr("X%d" % rnd, (N, dim), kind_of(cfg.get("form")))
        v = D.arr("v%d" % rnd, (N,), "pos")
        w = np.empty(N, dtype=object)
        if cfg["w"] == "uniform":
            w[:] = [D.const(Fraction(1, N))] * N
        elif cfg["w"] == "point":
            w[:] = [D.const(1)] + [D.const(0)] * (N - 1)
        else:
            z = {0} if cfg["w"] == "zero" else set()
            tot = None
            for i in range(N):
                if i not in z:
                    tot = v[i] if tot is None else tot + v[i]
            for i in range(N):
                w[i] = D.const(0) if i in z else v[i] / tot
        wg = D.give(w.reshape(-1, 1) if cfg["w"] == "column" else w, "array")
        m = len(D.plans())
        Xg = D.give(X, cfg.get("form", "array"))
        if kept and cfg["w"] == "again":        # the caller's arrays of the first call, overwritten
            kept[0][:], kept[1][:] = Xg, wg
            Xg, wg = kept
        kept = Xg, wg
        T = D.host(f(Xg, wg))
        if not D.shape("transport map", T, (N, N)):
            return
        NN = D.const(N)
        transport_map(D, T, X, w, m, N, dim, NN)
        D.eqs("samples unchanged", D.host(Xg), X)
        D.eqs("weights unchanged", D.host(wg).reshape(-1), w)
        D.out("T%d" % rnd, T if dim > 1 else D.host(np.array([0.0])))


def transport_map(D, T, X, w, m, N, dim, NN):
    one = D.const(1)
    tot = lambda xs: sum_(xs)
    for j in range(N):
        D.eq("column %d sums to 1" % j, tot([T[i, j] for i in range(N)]), one, tol=3e-5)
    for i in range(N):
        D.eq("row %d sums to N w" % i, tot([T[i, j] for j in range(N)]), NN * w[i], tol=3e-5, scale=1.0)
    for d in range(dim):
        lhs = tot([X[i, d] * T[i, j] for i in range(N) for j in range(N)])
        D.eq("mean of coordinate %d" % d, lhs / NN, tot([X[i, d] * w[i] for i in range(N)]), tol=3e-5, scale=1.0 if not D.sym else None)
    recs = [r for r in D.plans()[m:] if r["a"].shape == (N,) and r["b"].shape == (N,)]
    if not recs:
        D.fail("plan", "no transport plan was computed")
        return
    for rec in recs:
        if N == 1 or np.allclose(D.vals(rec["T"]) * N, D.vals(T), rtol=1e-6, atol=1e-9):
            break
    q = pb.distances(D, X.T, 1)
    ref = pb.reference_pair(D, q)
    for i in range(N):
        D.eq("first marginal %d of the plan" % i, rec["a"][i], w[i])
        D.eq("second marginal %d of the plan" % i, rec["b"][i], D.const(Fraction(1, N)))
        for j in range(N):
            D.eq("T[%d,%d] is N times the plan" % (i, j), T[i, j], NN * rec["T"][i, j])
            if i != j and N > 1:
                if ref is None:
                    continue        # all points coincide: every plan is optimal, whatever the cost
                if (i, j) == ref:
                    D.positive("cost factor", rec["cost"][ref])
                else:
                    D.eq("cost[%d,%d] is proportional to the distance" % (i, j), rec["cost"][i, j] * q[ref[0]][ref[1]], q[i][j] * rec["cost"][ref])
            elif N > 1:
                D.eq("cost[%d,%d]" % (i, i), rec["cost"][i, i], D.const(0))


def sum_(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


# ================================================================ C19
def c19_configs(tier):
    out = both(*[C(dim=2, N=3, n=13, what="object", q=[[7, 2], [2, 1], [11, 2]], **m) for m in MODES])
    out += both(C(dim=3, N=2, M=1, n=13, what="object", q=[[6, 3], [1, 2]]), C(dim=1, N=3, M=1, n=13, what="object", q=[[7, 1], [1, 1]]))
    out.append(C(TO, dim=2, N=3, n=3, what="object", form="array", q=[[1, 1]]))
    out.append(C(TO, dim=2, N=3, n=3, what="object", form="list", q=[[1, 1]]))
    for w in EST:
        out.append(dict(what="estimator", est=w, dim=2, N=3, M=2, K=2, l="vector"))
        out.append(dict(what="estimator", est=w, dim=1, N=3, M=2, K=2, l="scalar"))
        out.append(dict(what="estimator", est=w, dim=3, N=4, M=3, K=1, l="vector"))
        if w != "torch":
            out.append(dict(what="estimator", est=w, dim=2, N=3, M=2, K=2, l="vector", forms=("array", "array", "list", "array")))
    out.append(dict(what="estimator", est="torch", dim=2, N=3, M=2, K=2, l="vector", forms=("array",) * 4))
    for form in ("tensor", "array"):
        out.append(dict(what="kernel", form=form, l="vector", N=3, M=2, dim=2, y=True, lform=form))
        out.append(dict(what="kernel", form=form, l="scalar", N=3, M=2, dim=2, y=False))
    out.append(dict(what="transport", N=3, dim=2))
    out.append(dict(what="transport", N=3, dim=2, normal=True))
    out.append(dict(what="transport", N=5, dim=1, normal=True, column=True))
    out += ints(MODES, what="object", q=[[1, 1], [2, 2]]) + rets(MODES, what="object", q=[[1, 1], [2, 2]]) + query_ints(MODES[:2], what="object", n=13, q=[[7, 2], [1, 1]])
    out += [dict(c, what="estimator") for c in int_forms(EST) if c["forms"][3] == "int" or c["l"] == "vector" and c["forms"][2] == "int"]
    out += [dict(what="estimator", est=w, dim=3, N=3, M=2, K=2, l="vector", forms=("array", "array", "tuple", "array")) for w in EST]
    out.append(dict(what="transport", N=4, dim=3, column=True))
    out += [dict(c, what="object", q=[[1, 1], [2, 2]] if c["n"] < 12 else [[1, 1], [c["n"] // 2, 2]]) for c in
            spread(MODES, N=(5, 10, 33, 101), M=(3, 10, 33, 64), dims=(4, 5, 6, 8, 12), steps=(7, 12, 50))]
    out += both(C(dim=2, N=2, M=1, n=13, what="object", q=[[i, 1] for i in range(1, 13)]), *[C(dim=2, N=3, n=13, what="object", q=[[7, K], [2, K]]) for K in (1, 3, 10, 101)])
    for f in ("array", "list", "tuple"):
        out += [C(b, dim=2, N=2, M=1, n=13, what="object", form=f, q=[[7, 2], [1, 1]], **m) for b in (TO, NP) for m in MODES[1:4:2]]
    for w in EST:
        for d, N, M, K in ((1, 33, 1, 2), (1, 130, 1, 1), (2, 2, 5, 2), (2, 3, 2, 33), (2, 3, 1, 130), (5, 2, 1, 2), (8, 2, 1, 2), (12, 2, 1, 2), (2, 2, 2, 2), (3, 3, 3, 3)):
            out.append(dict(what="estimator", est=w, dim=d, N=N, M=M, K=K, l=("vector", "scalar")[N % 2]))
    for n, (a, b, d) in enumerate(RBF_SIZES):
        out.append(dict(what="kernel", form=("tensor", "array")[n % 2], l="vector", N=a, M=b, dim=d, y=True, lform=("tensor", "array")[n // 2 % 2]))
    out += [dict(what="transport", N=n, dim=d, column=bool(n % 2)) for n, d in ((2, 2), (5, 2), (6, 1), (8, 3), (10, 2), (16, 2), (20, 2), (33, 1), (3, 5), (3, 8), (4, 4))]
    if tier == "thorough":
        out += both(*[C(dim=4, N=3, n=16, what="object", q=[[i, 2] for i in range(1, 16)], **m) for m in MODES])
    return out


@check("C19", c19_configs, stub="by cfg", jit=False, paths=3, flips=3)
def c19(D, cfg):
    if cfg["what"] == "object":
        p = problem(D, cfg)
        same_input(D, "y1 after construction", p.in1, p.y1)
        same_input(D, "y2 after construction", p.in2, p.y2)
        Z, B, T, G = p.Z.copy(), p.B.copy(), None if p.Ztr is None else p.Ztr.copy(), p.grid.copy()
        us = []
        for n, (i, K) in enumerate(cfg["q"]):
            x = points(p, n, K)
            xg = D.give(x, cfg.get("qform") or ("tensor" if p.torch else "array"))
            u = p.obj.calculate_u(xg, i)
            us.append(("u%d" % n, u))
            same_input(D, "query points of control %d" % n, xg, x)
            p.obj.check_if_covered(xg[0], i)
            same_input(D, "query point of coverage test %d" % n, xg, x)
            if p.torch is False or True:
                D.host(u)
            o = p.obj
            D.eqs("Z after query %d" % n, D.host(o.Z), Z)
            D.eqs("B after query %d" % n, D.host(o.B), B)
            if T is not None:
                D.eqs("Ztr after query %d" % n, D.host(o.Ztr), T)
            D.eqs("time grid after query %d" % n, D.host(o.timegrid), G)
        same_input(D, "y1 after the queries", p.in1, p.y1)
        same_input(D, "y2 after the queries", p.in2, p.y2)
        for n, (a, was) in enumerate(D.kept.values()):
            same_input(D, "array %d handed out by the drift or cost" % n, a, was)
        publish(D, p)
    elif cfg["what"] == "estimator":
        e = est_data(D, cfg)
        mod, name, kind = EST[cfg["est"]]
        f = getattr(D.module(mod), name)
        forms = cfg.get("forms") or (("tensor",) * 4 if kind == "torch" else ("array",) * 4)
        for fn in (False, True):
            Xg, Zg, xg = D.give(e.X, forms[0]), D.give(e.Z, forms[1]), D.give(e.x, forms[3])
            lg = e.l0 if e.scalar else D.give(e.l0, forms[2])
            for d in range(e.dim if kind == "dim" else 1):
                kw = {"which_dim": d + 1} if kind == "dim" else {}
                r = f(Xg, Zg, func_out=fn, C=e.C, l=lg, **kw)
                if fn:
                    r(xg)
                    r(xg)
            lab = "%s %s: " % (name, "function" if fn else "direct")
            same_input(D, lab + "samples", Xg, e.X)
            same_input(D, lab + "inducing points", Zg, e.Z)
            same_input(D, lab + "query points", xg, e.x)
            if not e.scalar:
                same_input(D, lab + "length-scales", lg, e.l0)
    elif cfg["what"] == "kernel":
        l = D.arr("l", (cfg["dim"],), "pos") if cfg["l"] == "vector" else D.num("l", "pos")
        lg = D.give(l, cfg["lform"]) if cfg["l"] == "vector" else l
        k = D.module(K_TO).RBF(length_scale=lg, signal_variance=D.num("v", "pos"), multil=cfg["l"] == "vector")
        X, Y, args = rbf_data(D, cfg, "")
        K = k.Kernel(*args)
        K0 = D.host(K).copy()
        G = k.gradient_X(*args)
        G0 = D.host(G).copy()
        k.Kernel(*args)
        k.gradient_X(*args)
        same_input(D, "first argument", args[0], X)
        if len(args) > 1:
            same_input(D, "second argument", args[1], Y)
        if cfg["l"] == "vector":
            same_input(D, "length-scales", lg, l)
        D.eqs("kernel returned earlier", D.host(K), K0)
        D.eqs("gradient returned earlier", D.host(G), G0)
    else:
        N, dim = cfg["N"], cfg["dim"]
        X, v = D.arr("X", (N, dim)), D.arr("v", (N,), "pos")
        tot = sum_(list(v))
        # the caller's weights sum to one up to rounding
        off = 1 if cfg.get("normal") else 1 + D.num("off", "range", range=(5e-7, 1e-6))
        w = np.array([x / tot * off for x in v], dtype=object)
        if cfg.get("column"):
            w = w.reshape(-1, 1)
        Xg, wg = D.give(X, "array"), D.give(w, "array")
        D.module(R_NP).reweight_optimal_transport_multidim(Xg, wg)
        same_input(D, "samples", Xg, X)
        same_input(D, "weights", wg, w)


def same_input(D, label, given, was, tol=1e-9):
    was = np.asarray(was, dtype=object)
    now = D.host(given)
    if now.shape != was.shape:
        D.fail(label + " unchanged", "shape %s instead of %s" % (now.shape, was.shape))
        return
    D.eqs(label + " unchanged", now, was, tol=tol)


# ================================================================ C20
def c20_configs(tier):
    var = [dict(kern="periodic"), dict(reject=False), dict(dens_est="hermit1"), dict(dens_est="poly", reject=None)]
    out = both(*[C(dim=2, N=3, n=13, alt=a, q=[[7, 2], [2, 1]]) for a in var])
    out += both(*[C(dim=2, N=3, n=3, alt=a, q=[[1, 1]], **m) for a in var[:3] for m in MODES[1:]])
    mix = [dict(kern=k, dens_est=d, reject=r) for k in ("periodic", "RBF") for d in ("hermit1", "nonparametric", "poly") for r in (False, True)]
    out += both(*[C(dim=2, N=2, M=1, n=4, alt=a, q=[[2, 1]]) for a in mix])
    out += both(*[C(dim=2, N=2, M=1, n=3, alt=a, q=[[1, 1]], **m) for a in mix[:2] for m in MODES[1:]])
    for t, d in enumerate(("hermit1", "hermit2", "poly", "RBF", "histogram")):
        for r in range(3):
            m = MODES[(t + 2 * r) % len(MODES)]
            out += both(C(dim=2, N=2, M=1, n=12, alt=dict(dens_est=d, reject=(True, False)[r % 2], kern=("RBF", "periodic")[t % 2]), q=[[6, 1], [2, 1]], **m))
    out += both(*[C(dim=2, N=2, M=1, n=12, alt=dict(reject=False), q=[[6, 1], [10, 1]], **m) for m in MODES[1:]])
    out += both(C(dim=2, N=2, M=1, n=3, alt=dict(kern="periodic", dens_est="hermit1", reject=False, U=True, f_true=True), q=[[1, 1]]),
                C(dim=2, N=2, M=1, n=3, alt=dict(kern="periodic", dens_est="hermit1", reject=False, f_true=True), q=[[1, 1]], rw=True))
    out += both(*[C(dim=2, N=3, n=13, alt=dict(kern="periodic"), q=[[7, 1]], **m) for m in (MODES[1], MODES[4])])
    out += both(*[C(dim=2, N=3, n=4, alt=dict(U=True), q=[[1, 1]], **m) for m in (dict(), dict(det=False), dict(bb=True))])
    out += both(*[C(dim=2, N=3, n=4, alt=dict(f_true=True), q=[[2, 1]], **m) for m in (dict(), dict(det=False), dict(rw=True), dict(rw=True, det=False), dict(bb=True))])
    out += both(C(dim=2, N=3, n=4, alt=dict(brown_bridge=True), q=[[2, 1]]), C(dim=1, N=3, M=3, n=4, alt=dict(kern="periodic"), q=[[2, 1]]), C(dim=3, N=2, M=1, n=4, alt=dict(kern="periodic"), q=[[2, 1]]))
    for b, f in ((TO, "list"), (TO, "array"), (TO, "tuple"), (TO, "ttensor"), (NP, "list"), (NP, "tuple"), (NP, "fortran")):
        out.append(C(b, dim=2, N=3, n=13, alt=dict(form=f), q=[[7, 1], [1, 1]]))
        out.append(C(b, dim=3, N=2, M=1, n=3, alt=dict(form=f), det=False, q=[[1, 1]]))
        out.append(C(b, dim=1, N=2, M=1, n=3, alt=dict(form=f), q=[[1, 1]]))
        out.append(C(b, dim=2, N=3, n=3, alt=dict(form=f), rw=True, bb=True, q=[[1, 1]]))
    out += [C(b, dim=2, N=2, M=1, n=3, alt=dict(form=f), q=[[1, 1]], rw=True) for b, f in ((NP, ("list", "array")), (NP, ("array", "list")), (TO, ("tensor", "list")), (TO, ("array", "tensor")))]
    for t, (d, N, M, n, K) in enumerate([(v, 2, 1, 3, 1) for v in (4, 5, 6, 8, 10)] + [(1, v, 1, 3, 1) for v in (5, 10, 33, 64, 130)] + [(1, 2, v, 3, 1) for v in (5, 10, 33, 64, 101)] +
                                        [(1, 2, 1, v, 1) for v in (20, 50, 101)] + [(2, 3, 2, 3, v) for v in (3, 5, 33, 101)]):
        a = [dict(kern="periodic", dens_est="poly", reject=False), dict(dens_est="hermit1"), dict(kern="periodic", U=True, f_true=True), dict(reject=False, U=True)][t % 4]
        m = MODES[:2][t % 2]
        out += both(C(dim=d, N=N, M=M, n=n, alt=a, q=[[1, K]] if n < 12 else [[1, 1], [n // 2, 1]], **m))
        if t % 3 == 0:
            out.append(C((TO, NP)[t // 3 % 2], dim=d, N=N, M=M, n=n, alt=dict(form=("list", "tuple")[t // 6 % 2]), q=[[1, K]] if n < 12 else [[n // 2, 1]], **m))
    if tier == "thorough":
        out += both(*[C(dim=3, N=4, M=3, n=15, alt=a, q=[[7, 2], [8, 1], [2, 1]], **m) for a in var for m in MODES])
    return out


@check("C20", c20_configs)
def c20(D, cfg):
    alt = dict(cfg["alt"])
    rw, bb = cfg.get("rw", False), cfg.get("bb", False)
    base = dict(cfg)
    opts = {}
    form = alt.pop("form", None)
    p = problem(D, base)
    us = queries(p, cfg["q"])
    if alt.pop("U", None):
        opts["U"] = D.user_cost("V")
    if alt.pop("f_true", None):
        opts["f_true"] = D.user("fo", cfg["dim"])
    opts.update(alt)
    D.rewind()
    c2 = dict(base, form=form) if form else base
    q = problem(D, c2, shared=p, **opts)
    vs = queries(q, cfg["q"])
    D.eqs("Z", q.Z, p.Z)
    D.eqs("B", q.B, p.B)
    if p.brown:
        D.eqs("Ztr", q.Ztr, p.Ztr)
    for n, (u, v) in enumerate(zip(us, vs)):
        D.eqs("control %d" % n, v, u)
    publish(D, q)


def queries(p, qs):
    out = []
    for n, (i, K) in enumerate(qs):
        if p.rw and p.bb and not p.det:
            continue
        out.append(control(p, points(p, n, K), i))
    return out


# ================================================================ C21
def c21_configs(tier):
    out = both(C(dim=2, N=3, n=13, seq="A7 A7 A6 A7", pair=0), C(dim=2, N=3, n=13, seq="A7 A2 A7 A2 A11", pair=0),
               C(dim=2, N=3, n=13, seq="A7 B7 A7 B6", pair=1), C(dim=2, N=3, n=13, seq="A2 B2 A7 cA2 B7", pair=1), C(dim=2, N=3, n=13, seq="A7 A7", pair=2),
               C(dim=1, N=3, M=1, n=13, seq="A6 B7 A6", pair=2), C(dim=2, N=3, n=13, seq="cA7 A7 cA7 cB7", pair=1, det=False),
               C(dim=2, N=3, n=13, seq="A7 B7 A2 B2", pair=1, rw=True, bb=True), C(dim=2, N=3, n=13, seq="A7 A7s A7", pair=0), C(dim=2, N=2, M=1, n=13, seq="A7 A6 B6 A7 A7", pair=3),
               C(dim=2, N=3, n=3, seq="A1 B1", pair=4), C(dim=2, N=3, n=3, seq="B1 A1", pair=4, det=False))
    seqs = [("A7 A7s A7 A6 A7s", 0), ("A7 B7 A7 B7", 1), ("A6 B7 A7 B6 A6", 1), ("B7 A7 B2 A2 cB7 cA7", 1), ("A7 A8 A9 A8 A7", 0), ("cA7 cA8 A7 cA7", 0), ("A1 A2 A7 A1 A2", 0), ("A7 B7 B7 A7", 3), ("A7 A7o A2 A2o A11 A11o A7o A2", 0)]
    for t, m in enumerate(MODES):
        for r, (q, pair) in enumerate(seqs):
            out.append(C((NP, TO)[(t + r) % 2], dim=2, N=2, M=1, n=14, seq=q, pair=pair, **m))
            if r < 3:
                out.append(C((TO, NP)[(t + r) % 2], dim=2, N=2, M=1, n=14, seq=q, pair=pair, **m))
    for b in (NP, TO):
        for d, N, M in ((1, 3, 2), (3, 2, 1), (5, 2, 1), (8, 2, 1), (1, 33, 1), (1, 101, 1), (1, 2, 33), (2, 3, 101)):
            out.append(C(b, dim=d, N=N, M=M, n=12, seq="A7 A7s A6 A7 A2", pair=0, det=N < 20))
        out.append(C(b, dim=1, N=2, M=1, n=13, seq=" ".join(["A7"] * 40), pair=0))
        out.append(C(b, dim=1, N=2, M=1, n=13, seq=" ".join(["A7 A6 A2"] * 36), pair=0, det=False))
        out.append(C(b, dim=1, N=2, M=1, n=40, seq="A30 A20 A10 A30 A6 A35 cA20 A20", pair=0))
        out.append(C(b, dim=2, N=2, M=1, n=13, seq="A7 B7 A6 B6", pair=4, det=False))
    if tier == "thorough":
        out += both(C(dim=2, N=3, n=14, seq="A7 B6 A8 B7 A2 B12 A7 B7 cA7 cB7 A7", pair=1), C(dim=3, N=3, n=13, seq="A6 A7 A6 B7 B6 A7", pair=2, rw=True),
                    C(dim=2, N=3, n=13, seq="A7 A7 A7 A7 A7 A7 A7 A7", pair=0))
    return out


@check("C21", c21_configs)
def c21(D, cfg):
    """A, B: problems (pair: 0 none, 1 same sizes, 2 other sizes, 3 other N and M, 4 other grid); c: coverage; s: same points again, o: the array of
    the last query of this kind, overwritten with other points"""
    pair = cfg["pair"]
    p = {"A": problem(D, cfg, "")}
    if pair:
        c2 = dict(cfg)
        if pair == 2:
            c2.update(dim=cfg["dim"] + 1, N=cfg["N"] + 1, M=cfg["M"] + 1)
            D.cfg = dict(D.cfg, dim=c2["dim"])
        if pair == 3:
            c2.update(N=cfg["N"] + 1, M=cfg["M"] + 2)
        if pair == 4:
            c2.update(n=cfg["n"] + 3)
        p["B"] = problem(D, c2, "b")
    pts, given = {}, {}
    us = []
    # whose estimate each record is, and the time index of the control it was made for
    owner = {r: ("B" if pair and r >= p["B"].nscore0 else "A", None) for r in range(len(D.scores()))}
    for n, w in enumerate(cfg["seq"].split()):
        cov = w[0] == "c"
        w = w[1:] if cov else w
        again, over = w[-1] == "s", w[-1] == "o"
        w = w[:-1] if again or over else w
        o, i = p[w[0]], int(w[1:])
        if cov:
            x = o.B[:, 0, i]
            cond = True
            for d in range(o.dim):
                for c in (o.Z[:, :, i], o.B[:, :, i]):
                    cond = D.land(cond, x[d] >= D.min(list(c[d])), x[d] <= D.max(list(c[d])))
            r = o.obj.check_if_covered(D.give(x, "tensor" if o.torch else "array"), i)
            D.iff("coverage, query %d of %s" % (n, cfg["seq"]), r, cond)
            continue
        x = pts[w] if again else D.arr("x%d" % n, (2, o.dim))
        pts[w] = x
        m = len(D.scores())
        D.forget()
        xg = D.give(x, cfg.get("qform") or ("tensor" if o.torch else "array"))
        if over:
            given[w][:] = xg
        else:
            given[w] = xg
        u = D.host(o.obj.calculate_u(given[w], i))
        only_new(D, o, "query %d of %s" % (n, cfg["seq"]), u, x, i, m)
        for r in range(m, len(D.scores())):
            owner[r] = (w[0], i)
        us.append(("u%d" % n, u))
    D.rec_floor = 0
    for key in sorted(p):
        o = p[key]
        pb.fetch(o)
        estimates(o, {n: i for n, (w, i) in owner.items() if w == key and i is not None}, [n for n, (w, i) in owner.items() if w != key])
        steps = {0, 1, 2, o.k - 3, o.k - 2}
        pb.forward(o, only=steps)
        pb.backward(o, only={o.k - 1, o.k - 2, 2})
    estimates_draws(D, p)
    D.ok("the global generators are never seeded", len(D.seeds()) == 0, "%s" % (D.seeds()[:3],))
    publish(D, p["A"], *us)


def only_new(D, o, lab, u, x, i, m):
    """the control law with the estimates of this very call (an earlier call's estimates of other points do not count)"""
    control_law(o, lab, u, x, i)
    if interior(o, i):
        recs = D.scores()[m:]
        if not recs:
            D.fail(lab + ": new inducing points", "no estimate was made by this call")


def estimates_draws(D, ps):
    """every set of inducing points of the records comes from draws of its own"""
    D.distinct_sets("inducing points")


# ================================================================ C22
def c22_configs(tier):
    out = []
    for m in MODES:
        out.append(C(TO, dim=2, N=3, n=13 if m is MODES[0] or m is MODES[4] else 4, device="cuda", what="object", q=[[7, 2], [2, 1]] if m is MODES[0] or m is MODES[4] else [[2, 1]], **m))
        out.append(C(TO, dim=2, N=3, n=4, device="cpu", what="object", q=[[2, 1]], **m))
    out.append(C(TO, dim=3, N=2, M=1, n=3, device="cuda", what="object", form="list", q=[[1, 1]]))
    out.append(C(TO, dim=1, N=2, M=1, n=3, device="cuda", what="object", form="array", det=False, q=[[1, 1]]))
    out.append(C(TO, dim=2, N=2, M=1, n=3, device="cuda", what="object", form="f32", q=[[1, 1]]) if False else C(TO, dim=2, N=2, M=2, n=4, device="cuda:1", what="object", q=[[2, 1]]))
    for dev in ("cuda", "cpu"):
        for f in (("tensor",) * 4, ("array",) * 4, ("tensor", "tensor", "list", "tensor")):
            out.append(dict(backend=TO, what="estimator", dim=2, N=3, M=2, K=2, l="vector", est="torch", device=dev, forms=f))
        out.append(dict(backend=TO, what="estimator", dim=2, N=3, M=2, K=2, l="scalar", est="torch", device=dev))
        for form in ("tensor", "array"):
            for l in ("vector", "scalar"):
                out.append(dict(backend=TO, what="kernel", dim=2, N=3, M=2, l=l, form=form, y=True, device=dev))
    for t, c in enumerate(spread(MODES, N=(5, 10, 33, 101), M=(3, 10, 33, 101), dims=(4, 5, 6, 8, 12), steps=(7, 13, 50))):
        if c["backend"] == TO:
            out.append(dict(c, device=("cuda", "cuda", "cpu")[t % 3], what="object", form=("tensor", "list", "array")[t % 3], q=[[1, 1]] if c["n"] < 12 else [[1, 1], [c["n"] // 2, 2]]))
    for K in (1, 3, 10, 101):
        out.append(C(TO, dim=2, N=3, n=13, device="cuda", what="object", q=[[7, K], [2, K]]))
    out.append(C(TO, dim=2, N=2, M=1, n=13, device="cuda", what="object", q=[[i, 1] for i in range(1, 13)]))
    for d, N, M, K in ((4, 2, 1, 1), (6, 2, 1, 1), (8, 2, 1, 2), (1, 33, 1, 1), (1, 2, 5, 1), (2, 2, 1, 33), (1, 1, 1, 1)):
        for l in ("vector", "scalar"):
            out.append(dict(backend=TO, what="estimator", dim=d, N=N, M=M, K=K, l=l, est="torch", device="cuda"))
            out.append(dict(backend=TO, what="kernel", dim=d, N=N, M=max(M, K), l=l, form="tensor", y=True, device="cuda"))
    out.append(dict(backend=TO, what="set_device", cuda=True))
    out.append(dict(backend=TO, what="set_device", cuda=False))
    if tier == "thorough":
        for m in MODES:
            out.append(C(TO, dim=4, N=4, M=3, n=14, device="cuda", what="object", q=[[i, 1] for i in (1, 5, 6, 7, 8, 9, 13)], **m))
    return out


@check("C22", c22_configs, stub="by cfg", device=True)
def c22(D, cfg):
    if cfg["what"] == "set_device":
        D.devices(cfg["cuda"])
        r = D.module("DeterministicParticleFlowControl.utils.utils_pytorch").set_device()
        D.ok("set_device with CUDA %s" % ("available" if cfg["cuda"] else "unavailable"), D.device_name(r) == ("cuda" if cfg["cuda"] else "cpu"), "%s" % (r,))
        return
    dev = cfg["device"]
    D.devices(dev != "cpu")
    if cfg["what"] == "object":
        form = cfg.get("form", "tensor")
        with D.watch(dev, "construction"):
            p = problem(D, dict(cfg, form=form))
        o = p.obj
        for name in ("Z", "B", "timegrid") + (("Ztr",) if p.rw and p.bb else ()):
            D.placed("attribute %s" % name, getattr(o, name), dev)
        for n, (i, K) in enumerate(cfg["q"]):
            x = points(p, n, K)
            xg = D.give(x, "tensor", dev)
            with D.watch(dev, "control at %d" % i):
                u = o.calculate_u(xg, i)
            D.placed("control at %d" % i, u, dev)
            with D.watch(dev, "coverage at %d" % i):
                o.check_if_covered(xg[0], i)
    elif cfg["what"] == "estimator":
        e = est_data(D, cfg)
        f = getattr(D.module(F_TO), EST["torch"][1])
        forms = cfg.get("forms", ("tensor",) * 4)
        for fn in (False, True):
            args = [D.give(a, fm, dev) for a, fm in ((e.X, forms[0]), (e.Z, forms[1]))]
            lg = e.l0 if e.scalar else D.give(e.l0, forms[2], dev)
            xg = D.give(e.x, forms[3], dev)
            with D.watch(dev, "estimator (%s)" % ("function" if fn else "direct")):
                r = f(args[0], args[1], func_out=fn, C=e.C, l=lg, device=dev)
                if fn:
                    r = r(xg)
            D.placed("estimate (%s)" % ("function" if fn else "direct"), r, dev)
    else:
        l = D.arr("l", (cfg["dim"],), "pos") if cfg["l"] == "vector" else D.num("l", "pos")
        lg = D.give(l, "array") if cfg["l"] == "vector" else l
        X, Y = D.arr("X", (cfg["N"], cfg["dim"])), D.arr("Y", (cfg["M"], cfg["dim"]))
        a, b = D.give(X, cfg["form"], dev), D.give(Y, cfg["form"], dev)
        with D.watch(dev, "kernel"):
            k = D.module(K_TO).RBF(length_scale=lg, signal_variance=D.num("v", "pos"), multil=cfg["l"] == "vector", device=dev)
            K, G, K1 = k.Kernel(a, b), k.gradient_X(a, b), k.Kernel(a)
        D.placed("Kernel", K, dev)
        D.placed("gradient_X", G, dev)
        D.placed("Kernel of one argument", K1, dev)
