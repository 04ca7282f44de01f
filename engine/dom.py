"""What the property bodies (props.py) are written against.  The same bodies run symbolically (symdom.py) and, to
replay counterexamples and to validate the encoding, concretely on the real libraries (numdom.py)."""
import numpy as np

from fractions import Fraction


FORMS = ("int", "intlist", "inttensor")     # inputs passed as integers: their values are concrete
INTS = ("int", "posint")


class Skip(Exception):
    """the rest of this body has nothing to say (its assumptions do not hold at the point considered)"""


class Dom:
    sym = False

    def __init__(self):
        self.nobl = 0
        self.fails = []        # (label, text)
        self.outs = {}         # validation outputs: name -> array
        self.facts = {}        # counts for the evidence
        self._vec = {}
        self.kept = {}         # arrays the user's functions hand out and keep (cfg ret=const)
        self.used_normals = {}
        self.used_uniforms = {}
        self._fit_memo = {}
        self._made_memo = {}
        self._fps = None
        self._box_memo = {}
        self.rec_floor = 0

    # ---- bookkeeping
    def fact(self, name, n=1):
        self.facts[name] = self.facts.get(name, 0) + n

    def fail(self, label, text):
        """an obligation that is false on this path as it stands"""
        self.ok(label, False, text)

    def val(self, x):
        raise NotImplementedError

    def vals(self, a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=float)
        for i, x in np.ndenumerate(a):
            out[i] = self.val(x)
        return out

    def close(self, a, b, tol=1e-8):
        return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))

    # ---- structure of results
    def shape(self, label, a, shape):
        got = tuple(int(i) for i in np.shape(a))
        self.ok(label + " has shape %s" % (tuple(shape),), got == tuple(shape), "shape %s" % (got,))
        return got == tuple(shape)

    def eqs(self, label, a, b, **k):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.fail(label, "shape %s instead of %s" % (a.shape, b.shape))
            return
        for i in np.ndindex(*a.shape):
            self.eq("%s%s" % (label, list(i) if i else ""), a[i], b[i], **k)

    # ---- statistics
    def mean(self, xs):
        s = xs[0]
        for x in xs[1:]:
            s = s + x
        return s * self.const(Fraction(1, len(xs)))

    def var(self, xs, ddof):
        m = self.mean(xs)
        s = None
        for x in xs:
            t = (x - m) * (x - m)
            s = t if s is None else s + t
        return s * self.const(Fraction(1, len(xs) - ddof))

    def std(self, xs, ddof):
        return self.sqrt(self.var(xs, ddof))

    # ---- score estimates, found by what they were computed from
    def _fp(self, a):
        v = self.vals(a).reshape(-1)
        w = self._vec.get(v.size)
        if w is None:
            w = self._vec[v.size] = 0.5 + (np.arange(1, v.size + 1) * 0.6180339887498949 + 0.37 * v.size) % 1.0
        return float(v @ w), v

    def _index(self):
        """fingerprints of the score records made so far"""
        recs = self.scores()
        if self._fps is None:
            self._fps = []
        for rec in recs[len(self._fps):]:
            fx, vx = self._fp(rec["X"])
            self._fps.append([fx, vx, rec, []])
        for ent in self._fps:
            for q, out in ent[2]["evals"][len(ent[3]):]:
                fq, vq = self._fp(q)
                ent[3].append((fq, vq, q, out))
        return self._fps

    def find_scores(self, cloud, query):
        """records built from the cloud (dim x N) and evaluated at the query points (dim x K)"""
        X, Q = np.asarray(cloud, dtype=object).T, np.asarray(query, dtype=object).T
        fx, vx = self._fp(X)
        fq, vq = self._fp(Q)
        hits = []
        for f, v, rec, evs in self._index()[self.rec_floor:]:
            if v.size != vx.size or rec["X"].shape != X.shape or not self.close(f, fx, 1e-7):
                continue
            if not np.allclose(v, vx, rtol=1e-8, atol=1e-10):
                continue
            for g, w, q, out in evs:
                if w.size == vq.size and q.shape == Q.shape and self.close(g, fq, 1e-7) and np.allclose(w, vq, rtol=1e-8, atol=1e-10):
                    hits.append((rec, q, out))
        dims = [d for h in hits for d in h[0]["dims"]]
        if len(set(dims)) < len(dims):
            # points that merely coincide at the sample are told apart at another one
            sure = [h for h in hits if self.elsewhere(h[0]["X"], X) and self.elsewhere(h[1], Q)]
            if {d for h in sure for d in h[0]["dims"]} == set(dims):
                hits = sure
        return hits

    def elsewhere(self, a, b):
        """do two arrays agree away from the sample point as well?"""
        return True

    def score(self, label, cloud, query):
        """dim lists of candidate estimates (each a list over the query points), proved to be for this cloud and these
        points; None if some coordinate has no estimate"""
        S = self.score_sets(label, cloud, query)
        return None if S is None else [[est for _, est in c] for c in S]

    def score_sets(self, label, cloud, query):
        """the same, with the inducing points of each estimate"""
        X, Q = np.asarray(cloud, dtype=object).T, np.asarray(query, dtype=object).T
        dim = X.shape[1]
        if not self.sym and not (np.isfinite(self.vals(X)).all() and np.isfinite(self.vals(Q)).all()):
            self.fact("not finite")      # the first entry that is not finite is judged, what follows from it is not
            return None
        hits = self.find_scores(cloud, query)
        cand = [[] for _ in range(dim)]
        for rec, q, out in hits:
            self._fits(label, rec, X, q, Q)
            for j, d in enumerate(rec["dims"]):
                cand[d].append((rec["Z"], [out[i, j] for i in range(out.shape[0])]))
        if not all(cand):
            self._rowwise(label, X, Q, cand)
        for d in range(dim):
            if not cand[d]:
                self.fail(label, "no score estimate of coordinate %d was built from this cloud and evaluated at these points" % d)
                return None
        return cand

    def _fits(self, label, rec, X, q, Q):
        key = (id(rec), id(q))
        if key not in self._fit_memo:
            self._fit_memo[key] = (rec, q)
            self.eqs(label + ": samples of the estimate", rec["X"], X)
            self.eqs(label + ": query points of the estimate", q, Q)
            if id(rec) not in self._made_memo:
                self._made_memo[id(rec)] = rec
                ddof = 1 if self.cfg.get("backend", "np") == "torch" else 0
                self.eq(label + ": weight of the estimate", rec["C"], self.const(Fraction(1, 1000)))
                for d in range(X.shape[1] if X.shape[0] > ddof else 0):
                    self.eq(label + ": length-scale %d of the estimate" % d, rec["l"][d], self.const(2) * self.std(list(X[:, d]), ddof))

    def _rowwise(self, label, X, Q, cand):
        """estimates evaluated at the query points one by one, or together with other points"""
        fx, vx = self._fp(X)
        VQ = self.vals(Q)
        for f, v, rec, evs in self._index()[self.rec_floor:]:
            if rec["X"].shape != X.shape or not self.close(f, fx, 1e-7) or not np.allclose(v, vx, rtol=1e-8, atol=1e-10):
                continue
            rows = {}
            for g, w, q, out in evs:
                if q.ndim != 2 or q.shape[1] != X.shape[1]:
                    continue
                W = w.reshape(q.shape)
                for j in range(len(VQ)):
                    if j not in rows:
                        hit = np.nonzero(np.isclose(W, VQ[j], rtol=1e-8, atol=1e-10).all(axis=1))[0]
                        if hit.size:
                            rows[j] = (q[hit[0]], out[hit[0]])
            if len(rows) == len(VQ):
                self.eqs(label + ": samples of the estimate", rec["X"], X)
                for j in range(len(VQ)):
                    self.eqs(label + ": query points of the estimate", rows[j][0], Q[j])
                for c, d in enumerate(rec["dims"]):
                    cand[d].append((rec["Z"], [rows[j][1][c] for j in range(len(VQ))]))

    def forget(self):
        """only estimates made from now on count"""
        self._index()
        self.rec_floor = len(self.scores())

    # ---- noise
    def noise(self, label, resid, scale, where):
        """resid is scale times a standard normal draw that is used nowhere else"""
        n = self.find_normal(label, resid, scale, lambda n: self.used_normals.get(n, where) == where)
        if n is None:
            return
        prev = self.used_normals.get(n)
        if prev is not None and prev != where:
            self.fail(label + ": new draw", "normal draw %d is also used for %s" % (n, prev))
        self.used_normals[n] = where

    def box(self, label, z, lo, hi, where):
        """z is uniform in [lo, hi] by a draw that is used nowhere else"""
        n = self.find_uniform(label, z, lo, hi, lambda n: self.used_uniforms.get(n, where) == where)
        if n is None:
            return
        prev = self.used_uniforms.get(n)
        if prev is not None and prev != where:
            self.fail(label + ": new draw", "uniform draw %d is also used for %s" % (n, prev))
        self.used_uniforms[n] = where

    def in_box(self, z, lo, hi):
        """numerically at the position of some uniform draw?"""
        v, (z, lo, hi) = self.uniforms(), (self.val(z), self.val(lo), self.val(hi))
        if hi == lo:
            return abs(z - lo) <= 1e-9 * (1 + abs(lo))
        r = (z - lo) / (hi - lo)
        return bool(len(v)) and bool(min(np.abs(v - r).min(), np.abs(1 - v - r).min()) < 1e-6)

    # ---- inducing points: every set from draws of its own
    def distinct_sets(self, label):
        owner, seen = {}, {}
        for n, rec in enumerate(self.scores()):
            f, v = self._fp(rec["Z"])
            key = (round(f, 9), rec["Z"].shape)
            k = seen.get(key)
            cloud = self._fp(rec["X"])[0]
            if k is None:
                seen[key] = n
                for d in self.set_draws(rec):
                    if d in owner:
                        self.fail("%s of estimate %d: new draws" % (label, n), "uniform draw %d was used for estimate %d already" % (d, owner[d]))
                        return
                    owner[d] = n
        self.ok(label + ": every set is new", True)
