"""Problems (objects of the two classes under test) and the governing laws of their flows, over either domain."""
from fractions import Fraction

import numpy as np

from .dom import FORMS

DT = Fraction(1, 1000)


class P:
    pass


def problem(D, cfg, tag="", shared=None, t2_shift=None, **opts):
    """build an object of the class under test for the configuration"""
    p = P()
    p.cfg = cfg
    p.D = D
    p.tag = tag
    p.torch = cfg.get("backend", "np") == "torch"
    p.dim, p.N, p.M, p.n = cfg["dim"], cfg["N"], cfg["M"], cfg["n"]
    p.det = cfg.get("det", True)
    p.rw = cfg.get("rw", False)
    p.bb = cfg.get("bb", False)
    p.brown = p.rw and p.bb and p.det
    p.k = p.n + 1
    src = shared if shared is not None else p
    form = cfg.get("form", "tensor" if p.torch else "array")
    forms = (form, form) if isinstance(form, str) else form
    if shared is None:
        p.y1 = D.arr("y1" + tag, (p.dim,), "int" if forms[0] in FORMS else "real")
        p.y2 = D.arr("y2" + tag, (p.dim,), "int" if forms[1] in FORMS else "real")
        p.t1 = D.num("t1" + tag, "int" if cfg.get("t1int") else "real")
        p.g = D.num("g" + tag, "posint" if cfg.get("gint") else "pos")
        p.drift = D.user("f" + tag, p.dim)
        p.drift_true = D.user("ft" + tag, p.dim)
        p.cost = D.user_cost("U" + tag)
    else:
        for a in ("y1", "y2", "t1", "g", "drift", "drift_true", "cost"):
            setattr(p, a, getattr(src, a))
    p.dt = D.const(DT)
    p.fname, p.ftname, p.Uname = "f" + tag, "ft" + tag, "U" + tag
    p.t2 = p.t1 + D.const(DT * p.n)
    if t2_shift is not None:
        p.t2 = p.t2 + t2_shift
    kw = {"reweight": p.rw, "brown_bridge": p.bb, "deterministic": p.det}
    if p.rw:
        kw["U"] = p.cost
        if p.bb:
            kw["f_true"] = p.drift_true
    kw.update(opts)
    dev = cfg.get("device", "cpu")
    p.in1, p.in2 = D.give(p.y1, forms[0], dev), D.give(p.y2, forms[1], dev)
    p.given_g = D.give(p.g, "int") if cfg.get("gint") else p.g
    p.given_t1 = D.give(p.t1, "int") if cfg.get("t1int") else p.t1
    if p.torch and "device" not in kw:
        kw["device"] = cfg.get("device", "cpu")
    p.nscore0, p.nplan0, p.ncall0 = len(D.scores()), len(D.plans()), len(D.costs())
    p.normal0, p.uniform0 = D.counts()
    p.obj = D.cls("torch" if p.torch else "np")(p.given_t1, p.t2, p.in1, p.in2, p.drift, p.given_g, p.N, p.M, **kw)
    fetch(p)
    return p


def fetch(p):
    D, o = p.D, p.obj
    p.Z, p.B = D.host(o.Z), D.host(o.B)
    p.Ztr = D.host(o.Ztr) if p.rw and p.bb else None
    p.grid = D.host(o.timegrid)
    p.normal1, p.uniform1 = D.counts()


def time(p, j):
    return p.t1 + p.D.const(DT * j)


def shapes(p):
    D = p.D
    good = D.shape("forward flow", p.Z, (p.dim, p.N, p.k))
    good &= D.shape("backward flow", p.B, (p.dim, p.N, p.k))
    good &= D.shape("time grid", p.grid, (p.k,))
    if p.Ztr is not None:
        good &= D.shape("true-drift flow", p.Ztr, (p.dim, p.N, p.k))
    return good


def endpoints(p):
    D = p.D
    for d in range(p.dim):
        for i in range(p.N):
            D.eq("Z[%d,%d,0] = y1" % (d, i), p.Z[d, i, 0], p.y1[d])
            D.eq("B[%d,%d,0] = y1" % (d, i), p.B[d, i, 0], p.y1[d])
            D.eq("B[%d,%d,-1] = y2" % (d, i), p.B[d, i, p.k - 1], p.y2[d])
            if p.Ztr is not None and p.det:
                D.eq("Ztr[%d,%d,0] = y1" % (d, i), p.Ztr[d, i, 0], p.y1[d])


def column(A, i, t):
    return [A[d, i, t] for d in range(A.shape[0])]


def advance(p, which, t):
    """the cloud after one forward step of the law from time index t, before reweighting, as a list of candidate
    evaluations per entry, or None where noise enters"""
    D = p.D
    A = p.Z if which == "Z" else p.Ztr
    fname = p.fname if which == "Z" else p.ftname
    tt = time(p, t)
    cur = A[:, :, t]
    base = [[D.f(fname, d, column(A, i, t), tt) for i in range(p.N)] for d in range(p.dim)]
    if t == 0 or not p.det:
        return "em", [[cur[d, i] + base[d][i] * p.dt for i in range(p.N)] for d in range(p.dim)]
    S = D.score("%s step %d" % (which, t), cur, cur)
    if S is None:
        return "lost", None
    h = D.const(Fraction(1, 2)) * p.g * p.g
    return "ode", [[[cur[d, i] + (base[d][i] - h * s[i]) * p.dt for s in S[d]] for i in range(p.N)] for d in range(p.dim)]


def forward_step(p, which, t, pre=False):
    """index t -> t+1 obeys the governing law"""
    D = p.D
    A = p.Z if which == "Z" else p.Ztr
    kind, spec = advance(p, which, t)
    if kind == "lost":
        return
    new = A[:, :, t + 1]
    if which == "Z" and p.rw:
        return reweighted(p, t, kind, spec, pre)
    law(p, which, t, t + 1, kind, spec, new)


def law(p, which, t, t2, kind, spec, new):
    D = p.D
    for d in range(p.dim):
        for i in range(p.N):
            lab = "%s[%d,%d,%d]" % (which, d, i, t2)
            if kind == "em":
                D.noise(lab + " Euler-Maruyama step", new[d, i] - spec[d][i], p.g * D.sqrt(p.dt), (p.tag, which, d, i, t2))
            else:
                D.eq_any(lab + " flow step", new[d, i], spec[d][i])


def reweighted(p, t, kind, spec, only_pre=False):
    """Z[:,:,t+1] is the reweighted image of the step's cloud"""
    D = p.D
    new = p.Z[:, :, t + 1]
    tt = time(p, t + 1)
    # the cloud the cost was evaluated at
    pre = None
    for xs, us in D.cost_clouds(p, tt):
        if len(xs) == p.N and all(len(x) == p.dim for x in xs):
            cand = np.array([[xs[i][d] for i in range(p.N)] for d in range(p.dim)], dtype=object)
            if plausible(D, kind, spec, cand):
                pre = (cand, us)
                break
    lab = "Z[..,%d]" % (t + 1)
    if pre is None:
        D.fail(lab + " path cost", "the cost was not evaluated at the particles of this step at their own time")
        return
    cloud, us = pre
    law(p, "Z before reweighting", t, t + 1, kind, spec, cloud)
    if only_pre:
        return
    w = [D.exp(u * p.dt) for u in us]
    tot = w[0]
    for x in w[1:]:
        tot = tot + x
    w = [x / tot for x in w]
    # the mean of the new cloud; for many particles it is left to N Z T and the marginals of the plan, which imply it
    for d in range(p.dim if p.N <= 50 else 0):
        s = None
        for i in range(p.N):
            x = w[i] * cloud[d, i]
            s = x if s is None else s + x
        D.eq(lab + " mean of coordinate %d is the weighted mean" % d, D.mean([new[d, i] for i in range(p.N)]), s, tol=3e-5)
    # the plan
    wv = D.vals(np.array(w, dtype=object))
    for rec in D.plans():
        if rec["a"].shape[0] != p.N or rec["b"].shape[0] != p.N:
            continue
        if not np.allclose(D.vals(rec["a"]), wv, rtol=1e-8, atol=1e-12):
            continue
        if "cloud" in rec and rec["cloud"] != (id(p), t):
            continue
        if not cost_ok(p, rec, cloud):
            continue
        rec["cloud"] = (id(p), t)
        break
    else:
        D.fail(lab + " transport plan", "no transport plan was computed between the weights exp(U dt) and the uniform weights for distances of this cloud")
        return
    for i in range(p.N):
        D.eq(lab + " weight %d of the plan" % i, rec["a"][i], w[i])
        D.eq(lab + " target weight %d of the plan" % i, rec["b"][i], D.const(Fraction(1, p.N)))
    cost_is_distance(p, lab, rec["cost"], cloud)
    for d in range(p.dim):
        for j in range(p.N):
            s = None
            for i in range(p.N):
                x = cloud[d, i] * rec["T"][i, j]
                s = x if s is None else s + x
            D.eq(lab + " is N Z T, [%d,%d]" % (d, j), new[d, j], s * D.const(p.N))


def plausible(D, kind, spec, cand):
    """numerically the cloud of this step?"""
    if kind == "ode":
        for d in range(len(spec)):
            for i in range(len(spec[d])):
                v = D.val(cand[d, i])
                if not any(D.close(v, D.val(s), 1e-6) for s in spec[d][i]):
                    return False
        return True
    return True


def sqdist(D, cloud, i, j):
    s = None
    for d in range(cloud.shape[0]):
        x = (cloud[d, i] - cloud[d, j]) * (cloud[d, i] - cloud[d, j])
        s = x if s is None else s + x
    return s


def reference_pair(D, q):
    """a pair of particles that are apart"""
    if len(q) < 2 or D.val(q[0][1]) > 0:
        return (0, 1)
    v = D.vals(np.array(q, dtype=object))
    i, j = np.unravel_index(int(np.argmax(np.nan_to_num(v))), v.shape)
    return (int(min(i, j)), int(max(i, j))) if v[i, j] > 0 else None


def dists(p, cloud, power):
    return distances(p.D, cloud, power)


def distances(D, cloud, power):
    n = cloud.shape[1]
    return [[D.const(0) if i == j else (D.sqrt(sqdist(D, cloud, min(i, j), max(i, j))) if power == 1 else
                                        sqdist(D, cloud, min(i, j), max(i, j))) for j in range(n)] for i in range(n)]


def cost_ok(p, rec, cloud):
    D = p.D
    if rec["cost"].shape != (p.N, p.N):
        return False
    c = D.vals(rec["cost"])
    q = D.vals(np.array(dists(p, cloud, 2 if p.torch else 1), dtype=object))
    if not np.isfinite(c).all():
        return False
    i, j = np.unravel_index(int(np.argmax(q)), q.shape) if np.isfinite(q).all() else (0, 1)
    a, b = c[i, j], q[i, j]
    return bool(np.allclose(c * b, q * a, rtol=1e-6, atol=1e-12 + 1e-6 * abs(a * b)))


def cost_is_distance(p, lab, cost, cloud):
    """proportional to the distances, with a positive factor"""
    D = p.D
    q = dists(p, cloud, 2 if p.torch else 1)
    ref = reference_pair(D, q)
    if ref is None:
        return          # all particles coincide: every plan is optimal, whatever the cost
    r, c = q[ref[0]][ref[1]], cost[ref]
    for i in range(p.N):
        for j in range(p.N):
            if (i, j) != ref:
                D.eq(lab + " cost of the plan [%d,%d]" % (i, j), cost[i, j] * r, q[i][j] * c,
                     tol=1e-5, scale=None if D.sym else max(abs(c * r), abs(q[i][j] * c)))
    D.positive(lab + " cost factor", c)


def backward_step(p, j):
    """time index j -> j-1 obeys the reversed law (j-1 > 0)"""
    D = p.D
    cur, tt = p.B[:, :, j], time(p, j)
    S = D.score("B step %d, forward cloud" % j, p.Z[:, :, j], cur)
    if S is None:
        return
    new = p.B[:, :, j - 1]
    g2 = p.g * p.g
    em = (j == p.k - 1) or not p.det
    SB = None
    if not em:
        SB = D.score("B step %d, backward cloud" % j, cur, cur)
        if SB is None:
            return
    for d in range(p.dim):
        for i in range(p.N):
            lab = "B[%d,%d,%d]" % (d, i, j - 1)
            x = cur[d, i]
            f = D.f(p.fname, d, column(p.B, i, j), tt)
            if em:
                specs = [x - f * p.dt + p.dt * g2 * s[i] for s in S[d]]
                if len(specs) > 1:
                    specs = [D.pick_noise(new[d, i], specs, p.g * D.sqrt(p.dt))]
                D.noise(lab + " Euler-Maruyama step", new[d, i] - specs[0], p.g * D.sqrt(p.dt), (p.tag, "B", d, i, j - 1))
            else:
                h = D.const(Fraction(1, 2)) * g2
                D.eq_any(lab + " reversed flow step", new[d, i],
                         [x - (f - g2 * s[i] + h * b[i]) * p.dt for s in S[d] for b in SB[d]])


def forward(p, which="Z", only=None, pre=False):
    """pre: reweighted steps up to the reweighting only"""
    for t in range(p.k - 1):
        if only is None or t in only:
            forward_step(p, which, t, pre)


def backward(p, only=None):
    for j in range(p.k - 1, 1, -1):
        if only is None or j in only:
            backward_step(p, j)
