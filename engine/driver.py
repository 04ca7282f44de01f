"""Runs a check: symbolic exploration of every configuration in worker processes, validation and replay of what they
find on the real libraries, verdict and evidence."""
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import queue
import re
import resource
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
# whole-run deadlines: no symbolic job is started after `start`, the run ends before `end`
TIERS = {"quick": {"start": 420, "end": 780, "job": 120}, "thorough": {"start": 5400, "end": 9000, "job": 900}}
GENERIC = ["2", "3", "3:bigf", "5:far", "8:smallg", "9:bigg", "10:tiny", "12:bigU", "4", "7:micro", "9:wide", "6", "11:huge"]
MEM = 6 << 30


def stub_of(ck, cfg):
    st = ck.opts.get("stub", True)
    return cfg.get("what") in (None, "object") if st == "by cfg" else st


# ---------------------------------------------------------------- concrete side
class Server:
    """one process on the real libraries; restarted when it dies or hangs"""

    def __init__(self, jit):
        self.jit, self.p = jit, None

    def start(self):
        env = dict(os.environ, VERIF_JIT="1" if self.jit else "0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="2", NUMBA_NUM_THREADS="2", PYTHONHASHSEED="0", DUECREDIT_ENABLE="no",
                   MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp"), VERIF_REPO=REPO)
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([VENV, os.path.join(HERE, "engine", "server.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)

    def ask(self, job, limit=170):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            timer = threading.Timer(job.get("limit", limit) + 60, self.p.kill)
            timer.start()
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            finally:
                timer.cancel()
            if line:
                return json.loads(line)
            self.stop()
        return {"status": "died", "error": "the process running the real code died", "fails": [], "nobl": 0}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait(10)
            except Exception:
                pass
            self.p = None


class Concrete:
    """a queue of concrete jobs served by n processes"""

    def __init__(self, jit, n=2):
        self.q, self.res, self.cv = queue.PriorityQueue(), {}, threading.Condition()
        self.n, self.runs, self.serial, self.closing = n, 0, 0, False
        self.servers = [Server(jit) for _ in range(n)]
        self.threads = [threading.Thread(target=self._loop, args=(s,), daemon=True) for s in self.servers]
        for t in self.threads:
            t.start()

    def _loop(self, s):
        while True:
            _, n, job = self.q.get()
            if self.closing:
                return
            try:
                r = s.ask(job)
            except Exception as e:
                r = {"status": "died", "error": repr(e), "fails": [], "nobl": 0}
            with self.cv:
                self.res[n] = r
                self.runs += 1
                self.cv.notify_all()

    def put(self, job, prio=5):
        self.serial += 1
        self.q.put((prio, self.serial, job))
        return self.serial

    def get(self, n, deadline):
        with self.cv:
            while n not in self.res:
                left = deadline - time.time()
                if left <= 0:
                    return {"status": "late", "error": "no time left", "fails": [], "nobl": 0}
                self.cv.wait(min(left, 5))
            return self.res[n]

    def close(self):
        self.closing = True
        for s in self.servers:
            s.stop()


def broken(r):
    """what the real code got wrong in this concrete run, or None"""
    if r.get("nfails"):
        return "; ".join("%s: %s" % (a, b) for a, b in r["fails"][:3])
    if r["status"] == "raised" and r.get("in_repo"):
        return "raises " + r["error"]
    return None


# ---------------------------------------------------------------- symbolic side
def work(conn, pid, cfg, opts, stdout):
    try:
        sys.setrecursionlimit(20000)
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        if not stdout:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
        from . import explore, props
        S = explore.explore(props.CHECKS[pid].body, cfg, opts)
        conn.send(("ok", S))
    except MemoryError:
        conn.send(("error", "out of memory (%d GB)" % (MEM >> 30)))
    except BaseException as e:
        conn.send(("error", "%s: %s\n%s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-800:])))
    finally:
        conn.close()


GIVEN_UP = "not started: a violation has been found already"


def explore_all(jobs, nproc, deadline_start, deadline_end, on_done, enough=lambda: False):
    """jobs: list of (n, pid, cfg, opts, hard limit in seconds); once enough() is true the rest is given up"""
    ctx = multiprocessing.get_context("fork")
    todo, live = list(jobs), {}
    while todo or live:
        now = time.time()
        if enough():
            for n, *_ in todo:
                on_done(n, ("error", GIVEN_UP))
            todo = []
            for n, (p, a, end) in list(live.items()):
                live[n] = (p, a, min(end, now + 3))
            enough = lambda: False
        while todo and len(live) < nproc:
            n, pid, cfg, opts, hard = todo.pop(0)
            if now > deadline_start:
                on_done(n, ("error", "not started: the time of the run is used up"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, pid, cfg, opts, False), daemon=True)
            p.start()
            b.close()
            live[n] = (p, a, min(now + hard, deadline_end))
        if not live:
            continue
        multiprocessing.connection.wait([a for _, a, _ in live.values()], timeout=0.5)
        for n, (p, a, end) in list(live.items()):
            out = None
            if a.poll():
                try:
                    out = a.recv()
                except (EOFError, OSError):
                    p.join(5)
                    out = ("error", "the worker died (exit code %s)" % p.exitcode)
            elif time.time() > end:
                p.kill()
                out = ("error", "stopped: its time is used up")
            if out is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[n]
                on_done(n, out)


# ---------------------------------------------------------------- comparing symbolic values with the real run
def compare(sym, real, tol):
    """-> (entries compared, entries that differ, worst relative difference)"""
    import numpy as np
    cnt = bad = 0
    worst = 0.0
    for name, a in (sym or {}).items():
        if name not in (real or {}):
            continue
        x, y = np.asarray(a, dtype=float), np.asarray(real[name], dtype=float)
        if x.shape != y.shape:
            return cnt + 1, bad + 1, math.inf
        ok = np.isfinite(x) & np.isfinite(y)
        scale = 1.0 + (float(np.abs(y[ok]).max()) if ok.any() else 0.0)
        d = np.abs(x - y) / scale
        d[~ok] = np.where(np.isfinite(x) == np.isfinite(y), 0.0, 1.0)[~ok]
        cnt += d.size
        bad += int((d > tol).sum())
        if d.size:
            worst = max(worst, float(d.max()))
    return cnt, bad, worst


# ---------------------------------------------------------------- known findings
def known():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\w+) config=(\{.*?\}) label=/(.*?)/ (.*)", line.strip())
            if m:
                out.append({"property": m[1], "config": json.loads(m[2]), "label": re.compile(m[3]), "text": m[4]})
    except OSError:
        pass
    return out


def listed(kn, pid, cfg, fails):
    """the known finding that covers every failing obligation of this run, if one does"""
    for k in kn:
        if k["property"] == pid and all(cfg.get(a) == b for a, b in k["config"].items()) \
                and fails and all(k["label"].search(f[0]) for f in fails):
            return k
    return None


def size(cfg):
    """small configurations go first"""
    n = 1.0
    for k in ("dim", "N", "N2", "M", "n", "K"):
        n *= max(1, cfg.get(k) or 1)
    return int(math.log2(n * (4 if cfg.get("rw") else 1) * (1 + len(cfg.get("q") or ())))) // 2


# ---------------------------------------------------------------- the verdict
def decide(pid, tier, seed, only=None, verbose=False):
    t0 = time.time()
    from . import props, sizes
    ck = props.CHECKS[pid]
    T = TIERS[tier]
    start, end = t0 + T["start"], t0 + T["end"]
    cfgs = ck.configs(tier)
    cfgs = list(enumerate(cfgs + sizes.extra(cfgs, os.environ.get("VERIF_REPO", "/repo"))))
    if only is not None:
        cfgs = [c for c in cfgs if c[0] in only]
    cfgs.sort(key=lambda c: size(c[1]))
    seed_s = str(seed)
    jit = bool(ck.opts.get("jit"))
    conc = Concrete(jit)
    kn = known()
    R = {n: {"n": n, "cfg": cfg} for n, cfg in cfgs}

    def job(n, s, over=None, **k):
        cfg = R[n]["cfg"]
        return dict(id=n, check=pid, cfg=cfg, seed=s, over=over or {}, stub=stub_of(ck, cfg), **k)

    for n, cfg in cfgs:
        R[n]["val"] = conc.put(job(n, seed_s, outs=True))

    asked = []           # (configuration, concrete run that may reproduce a failure)

    def done(n, out):
        R[n]["kind"], R[n]["S"] = out
        if verbose:
            S = out[1]
            print(n, R[n]["cfg"], "%.1f s" % S["wall"] if out[0] == "ok" else S, flush=True)
        if out[0] == "ok" and len(asked) < 8:
            for f in out[1]["failures"][:1]:
                p = f.get("point") or {"seed": seed_s, "over": {}}
                same = p == {"seed": seed_s, "over": {}} and R[n]["val"] in conc.res
                asked.append((n, R[n]["val"] if same else conc.put(job(n, p["seed"], p["over"]), 0)))

    def enough():
        for n, a in asked:
            r = conc.res.get(a)
            if r is not None and broken(r) and not listed(kn, pid, R[n]["cfg"], r.get("fails") or [["no exception", r.get("error")]]):
                R[n]["reproduced"] = True
                return True
        return False

    jobs = []
    for n, cfg in cfgs:
        o = {k: v for k, v in ck.opts.items() if k in ("paths", "flips", "timeout", "confirm", "confirm_limit")}
        b = T["job"] if "size" not in cfg else T["job"] / 3
        o.update(stub=stub_of(ck, cfg), seed=seed_s, budget=b)
        jobs.append((n, pid, cfg, o, b + (80 if "size" not in cfg else 10)))
    try:
        explore_all(jobs, 6, start, end - 120, done, enough)
        return judge(ck, tier, seed, R, conc, job, kn, t0, end, verbose)
    finally:
        conc.close()


def judge(ck, tier, seed, R, conc, job, kn, t0, end, verbose):
    pid = ck.id
    found, knowns, nonrepro, notes = [], [], [], []      # found: (n, how, seed, over, result)

    def record(n, how, s, over, r):
        k = listed(kn, pid, R[n]["cfg"], r.get("fails") or [["no exception", r.get("error")]])
        (knowns if k else found).append((n, how, s, over, r, k))
        R[n]["violated" if not k else "known"] = True

    seed_s = str(seed)
    # 1. counterexamples of the symbolic side, replayed on the real code
    short = any(x.get("reproduced") for x in R.values())
    late = time.time() + 10
    for n, x in sorted(R.items(), key=lambda e: not e[1].get("reproduced")):
        x["real"] = conc.get(x["val"], late if short and x["kind"] != "ok" else end - 60)
    for n, x in R.items():
        if x["kind"] != "ok":
            continue
        S = x["S"]
        pts, seen = [], set()
        for f in S["failures"] + [e for e in S["errors"] if e["kind"] == "raised"]:
            p = f.get("point") or {"seed": seed_s, "over": {}}
            key = json.dumps(p, sort_keys=True)
            if key not in seen:
                seen.add(key)
                pts.append((p, f))
        if not pts:
            continue
        hit = False
        for p, f in pts[:5]:
            if p == {"seed": seed_s, "over": {}}:
                r = x["real"]
            elif len(found) > (0 if short else 6):
                continue
            else:
                r = conc.get(conc.put(job(n, p["seed"], p["over"]), 0), end - 30)
            if broken(r):
                record(n, "refuted by the solver side: %s (%s)" % (f["label"], f.get("how")), p["seed"], p["over"], r)
                hit = True
                break
        if not hit and not found and len(nonrepro) < 8:
            asked = [(s, conc.put(job(n, s), 0)) for s in GENERIC]
            for s, a in asked:
                r = conc.get(a, end - 30)
                if broken(r):
                    record(n, "refuted by the solver side: %s; failing at a generic point" % pts[0][1]["label"], s, {}, r)
                    hit = True
                    break
        if not hit and not broken(x["real"]):
            nonrepro.append((n, pts[0][1]))
    # 2. validation of the encoding: the same point on the real libraries
    nval = nbadval = ncell = 0
    for n, x in R.items():
        b = broken(x["real"])
        if b and not x.get("violated") and not x.get("known"):
            record(n, "comparison of the encoding with the real run", seed_s, {}, x["real"])
    for n, x in R.items():
        S = x["S"] if x["kind"] == "ok" else None
        r = x["real"]
        if S is None or r["status"] != "done" or not S.get("outs"):
            continue
        cnt, bad, worst = compare(S["outs"], r.get("outs"), x["cfg"].get("vtol", 1e-5))
        if bad and not x.get("violated"):
            r2 = conc.get(conc.put(job(n, seed_s, outs=True, reference=True), 1), end - 60)
            c2 = compare(S["outs"], r2.get("outs"), x["cfg"].get("vtol", 1e-5))
            if c2[1] < bad:
                cnt, bad, worst = c2
        x["validated"] = (cnt, bad, worst)
        nval += 1
        nbadval += bad > 0
        ncell += cnt
    # 3. what the solver leaves open: candidates of its models and generic points on the real code
    opened = []
    spurious = {n: f for n, f in nonrepro}
    for n, x in R.items():
        if x.get("violated") or x.get("known"):
            continue
        if n in spurious:
            opened.append((n, "refuted by the encoding, but the real code does not fail there: %s" % (spurious[n],), []))
            continue
        if x["kind"] != "ok":
            opened.append((n, x["S"], []))
        else:
            S = x["S"]
            if S["undecided"] or S["errors"]:
                pts = [f["point"] for f in S["undecided"] if f.get("point")]
                why = (S["errors"] or S["undecided"])[0]
                opened.append((n, "%s: %s" % (why.get("kind") or why.get("label"), why.get("text") or why.get("how")), pts))
    if not found:
        asked = []
        for n, why, pts in opened:
            for p in pts[:3]:
                asked.append((n, p["seed"], p["over"], conc.put(job(n, p["seed"], p["over"]), 2)))
        for k, s in enumerate(GENERIC):
            for n, why, pts in opened:
                asked.append((n, s, {}, conc.put(job(n, s), 3 + k)))
        for n, s, over, a in asked:
            if R[n].get("violated"):
                continue
            r = conc.get(a, end - 30)
            if r["status"] == "late":
                break
            if broken(r):
                record(n, "left open by the solver", s, over, r)
    # 4. verdict
    rc, why = 0, []
    ok = [x for x in R.values() if x["kind"] == "ok"]
    opened_n = {n for n, _, _ in opened}
    decided_cfg = [x for x in ok if x["n"] not in opened_n]
    nobl = sum(x["S"]["obligations"] for x in ok)
    proved = sum(x["S"]["proved"] for x in ok)
    confirm_bad = sum(x["S"]["confirm_bad"] for x in ok)
    vac = sum(x["S"]["vacuity"] for x in ok)
    if found:
        rc = 1
    else:
        if not decided_cfg and len(R) > len(knowns):
            rc = 2
            why.append("none of %d configurations was decided" % len(R))
        if confirm_bad:
            rc = 2
            why.append("z3 contradicts %d normal-form proofs" % confirm_bad)
        if nval and 2 * nbadval > nval:
            rc = 2
            why.append("the encoding disagrees with the real run in %d of %d configurations" % (nbadval, nval))
    paths = replays(pid, found, R) if found else []
    for n, _, s, over, r, k in knowns:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["text"], R[n]["cfg"]))
    evidence(ck, tier, seed, R, conc, found, knowns, nonrepro, opened, why, (nval, nbadval, ncell), t0)
    for (n, how, s, over, r, _), path in zip(found, paths):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   configuration %s, point %s %s" % (R[n]["cfg"], s, "+ solver model" if over else ""))
        print("   found as: %s" % how)
        print("   real code: %s" % broken(r))
        break
    print("%s %s: %d configurations, %d decided, %d left open; %d obligations, %d proved; %d real runs; %.0f s -> %s" % (
        pid, tier, len(R), len(decided_cfg), len(opened), nobl, proved, conc.runs, time.time() - t0,
        ["holds on everything explored", "violated", "no verdict: " + "; ".join(why)][rc]))
    for n, w, _ in opened[:10]:
        print("   open: %s %s" % (R[n]["cfg"], w))
    if verbose:
        for x in R.values():
            if x.get("validated") and (x["validated"][1]):
                print("   validation", x["n"], x["cfg"], x["validated"])
        for f in found[1:]:
            print("   also:", f[0], R[f[0]]["cfg"], f[1], broken(f[4]))
    sys.stdout.flush()
    return rc


def replays(pid, found, R):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    out = []
    for i, (n, how, s, over, r, _) in enumerate(found[:5]):
        from . import props
        ck = props.CHECKS[pid]
        path = os.path.join(d, "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump({"property": pid, "config_number": n, "cfg": R[n]["cfg"], "seed": s, "over": over, "found_as": how,
                       "jit": bool(ck.opts.get("jit")), "fails": r.get("fails"), "status": r["status"], "error": r.get("error"),
                       "trace": r.get("trace")}, fh, indent=1)
        out.append(path)
    return out


def replay(path):
    from . import props
    d = json.load(open(path))
    ck = props.CHECKS[d["property"]]
    s = Server(d["jit"])
    try:
        r = s.ask(dict(id=0, check=d["property"], cfg=d["cfg"], seed=d["seed"], over=d["over"], stub=stub_of(ck, d["cfg"])))
    finally:
        s.stop()
    b = broken(r)
    print("configuration %s, point %s" % (d["cfg"], d["seed"]))
    for a, t in r.get("fails") or []:
        print("  fails: %s: %s" % (a, t))
    if r.get("error"):
        print("  %s %s\n%s" % (r["status"], r["error"], r.get("trace")))
    if b:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("%s: %d obligations hold at this point" % (r["status"], r["nobl"]))
    return 0 if r["status"] == "done" else 2


ASSUME = [
    "numbers are reals, not doubles; ties of comparisons and points where a formula is undefined are outside the claim",
    "numpy, scipy, numba, torch, pyemd and POT behave as the engine's models of them (compared with the real libraries at one point per configuration on every run)",
    "sizes, number of steps and call sequences are those of the configurations listed under `configurations`",
]


def evidence(ck, tier, seed, R, conc, found, knowns, nonrepro, opened, why, val, t0):
    pid = ck.id
    ok = [x["S"] for x in R.values() if x["kind"] == "ok"]
    tot = lambda k: sum(S[k] for S in ok)
    sol = {}
    for S in ok:
        for k, v in S["solver"].items():
            sol[k] = max(sol.get(k, 0), v) if k == "max_query_s" else sol.get(k, 0) + v
    how, facts, files, fns = {}, {}, {}, set()
    for S in ok:
        files.update(S["files"])
        fns.update(S["functions"])
        for k, v in S["how"].items():
            how[k] = how.get(k, 0) + v
        for k, v in S["facts"].items():
            facts[k] = facts.get(k, 0) + v
    samples = []
    for x in R.values():
        if x["kind"] == "ok" and len(samples) < 4:
            S = x["S"]
            samples.append({"configuration": x["cfg"], "paths": S["paths"], "obligations": S["obligations"], "proved": S["proved"],
                            "decided_by": S["how"], "confirmed_by_z3": S["confirmed"],
                            "real_run": {"point": str(seed), "obligations": x["real"].get("nobl"), "failing": x["real"].get("nfails", 0)},
                            "values_compared": x.get("validated")})
    cov = {
        "states": tot("paths"), "transitions": tot("flips") + tot("paths"),
        "traces_validated_against_impl": sum(1 for x in R.values() if x["real"]["status"] == "done" and x["kind"] == "ok" and x.get("validated") and not x["validated"][1]),
        "samples": samples,
        "explanation": "states: end states of symbolic paths through the real code (one per configuration and feasible branch sequence, each standing for all inputs, draws and uninterpreted drift/cost/score values that take it); transitions: branch alternatives handed to the solver plus paths followed",
        "configurations": [x["cfg"] for x in R.values()],
        "configurations_decided": len(R) - len(opened) - len(found),
        "functions_encoded": sorted(fns), "files": files,
        "obligations": tot("obligations"), "discharged": tot("proved"), "refuted": tot("refuted"), "unknown": tot("unknown"),
        "decided_by": how, "normal_form_proofs_confirmed_by_z3": tot("confirmed"), "confirmation_undecided": tot("confirm_undecided"),
        "branches_infeasible": tot("flips_infeasible"), "branches_not_explored": tot("flips_open") + tot("queued"),
        "reachability_witnesses": tot("vacuity"), "facts": facts,
        "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sol.items()},
        "real_runs": conc.runs, "encoding_compared": {"configurations": val[0], "disagreeing": val[1], "values": val[2]},
        "left_open": [{"configuration": R[n]["cfg"], "why": str(w)[:300]} for n, w, _ in opened],
        "no_verdict": why, "counterexamples_not_reproduced": len(nonrepro), "known_findings": len(knowns),
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ASSUME,
           "wall_s": round(time.time() - t0, 2), "violations": len(found)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % pid))
