"""Symbolic exploration of one configuration of a check."""
import math
import time
import traceback

from . import env, poly, smt, symarr, symdom, symtorch, values
from .dom import Skip
from .poly import ATOMS, Sym, Unsupported

SEEDS = ["1"] + ["%d:%s" % (i, r) for i in (2, 3) for r in ("", "smallg", "bigg", "bigf", "bigU", "far", "tiny", "calm", "micro", "wide")] + ["4", "5", "6"]
HUNT = SEEDS + ["%d:%s" % (i, r) for i in range(7, 40) for r in ("", "smallg", "bigg", "bigf", "bigU", "far", "tiny", "calm", "micro", "wide", "narrow", "huge", "dear", "cheap")]


def _holds(val, conds):
    try:
        return all(val.cond(c) for c in conds)
    except (ArithmeticError, ValueError, KeyError):
        return False


def find_valuation(conds, seeds, deadline, over=None, tries=None):
    n = 0
    for s in seeds:
        if time.time() > deadline or (tries is not None and n >= tries):
            return None
        n += 1
        v = smt.Valuation(s, over)
        if _holds(v, conds):
            return v
    return None


def input_model(model):
    """the values a solver model gives to inputs and draws"""
    over = {}
    for i, v in (model or {}).items():
        a = ATOMS[i]
        if a.kind == "var" and not (a.info or {}).get("deps") and isinstance(v, float) and math.isfinite(v):
            over[a.name] = v
    return over


class PathResult:
    pass


def run_path(body, cfg, spec, opts):
    poly.reset()
    symarr.reset()
    env.ENV.reset()
    symtorch_reset()
    from .libs import Numba
    Numba.order = "forward"
    val = smt.Valuation(spec["seed"], spec.get("over") or {})
    smt.CTX.val = val
    smt.CTX.script = dict(spec.get("script") or {})
    pr = smt.Prover([val], timeout_s=opts.get("timeout", 10.0), deadline=opts.get("deadline"))
    D = symdom.SymDom(pr, cfg, stub=opts.get("stub", True))
    r = PathResult()
    r.spec, r.dom, r.prover = spec, D, pr
    r.status, r.error = "done", None
    t0 = time.time()
    try:
        body(D, cfg)
    except Skip:
        r.status = "skipped"
    except Unsupported as e:
        r.status, r.error = "unsupported", "%s @ %s" % (e, where())
    except smt.Budget as e:
        r.status, r.error = "budget", str(e)
    except RecursionError as e:
        r.status, r.error = "unsupported", "recursion %s" % (e,)
    except Exception as e:
        r.status, r.error = "raised", "%s: %s @ %s" % (type(e).__name__, e, where())
        if opts.get("debug"):
            traceback.print_exc()
    r.wall = time.time() - t0
    return r


def where():
    import sys
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    own = [f for f in fr if "/engine/" not in f.filename and "/usr/" not in f.filename and "/opt/" not in f.filename]
    f = own[-1] if own else fr[-1]
    last = fr[-1]
    return "%s:%d (%s:%d)" % (f.filename.split("/")[-1], f.lineno, last.filename.split("/")[-1], last.lineno)


def symtorch_reset():
    symtorch.reset_state()


def goal_conds(bad):
    """condition that the goal is violated"""
    g = bad.verdict.goal
    if isinstance(g, tuple):
        return poly.mknot(poly.mkbool("eq", Sym.of(g[0]) - Sym.of(g[1])))
    return poly.mknot(g) if g is not None else True


def hunt(bad, deadline):
    """a sample point that follows this path and violates the goal"""
    conds = smt.CTX.conditions()
    g = bad.verdict.goal
    if g is None:
        return None
    over0 = input_model(bad.verdict.model) if isinstance(bad.verdict.model, dict) else None
    tries = [(None, s) for s in HUNT]
    if over0:
        tries = [(over0, s) for s in HUNT[:3]] + tries
    for over, s in tries:
        if time.time() > deadline:
            return None
        v = smt.Valuation(s, over)
        if not _holds(v, conds):
            continue
        try:
            if isinstance(g, tuple):
                if smt.numeric_state(Sym.of(g[0]) - Sym.of(g[1]), [v], 1e-7)[0] == "nonzero":
                    return v
            elif not isinstance(g, bool) and v.sure(g) is False:
                return v
        except (ArithmeticError, ValueError):
            continue
    return None


def explore(body, cfg, opts):
    """-> summary dict of everything decided for this configuration"""
    t_start = time.time()
    deadline = t_start + opts.get("budget", 120)
    max_paths = opts.get("paths", 6)
    queue = [{"seed": opts.get("seed", "1"), "over": dict(opts.get("over") or {})}]
    seen = set()
    S = {"cfg": cfg, "paths": 0, "forced": 0, "obligations": 0, "proved": 0, "refuted": 0, "unknown": 0, "how": {}, "facts": {},
         "failures": [], "undecided": [], "errors": [], "validate": [], "confirmed": 0, "confirm_undecided": 0,
         "confirm_bad": 0, "flips": 0, "flips_infeasible": 0, "flips_open": 0, "files": {}, "functions": [], "vacuity": 0}
    smt_before = dict(smt.STATS)
    while queue and S["paths"] < max_paths and (S["paths"] == 0 or time.time() < deadline):
        spec = queue.pop(0)
        r = run_path(body, cfg, spec, dict(opts, deadline=deadline))
        D = r.dom
        S["files"].update(D.loader.files)
        S["paths"] += 1
        forced = bool(spec.get("script"))
        S["forced"] += forced
        S["obligations"] += D.nobl
        S["proved"] += D.decided["proved"]
        for k, v in D.how.items():
            S["how"][k] = S["how"].get(k, 0) + v
        for k, v in D.facts.items():
            S["facts"][k] = S["facts"].get(k, 0) + v
        point = {"seed": spec["seed"], "over": spec.get("over") or {}}
        if r.status in ("unsupported", "budget"):
            S["errors"].append({"kind": r.status, "text": r.error, "forced": forced, "point": point})
        elif r.status == "raised":
            (S["undecided"] if forced else S["failures"]).append({"label": "no exception", "how": r.error, "point": point, "text": r.error})
        hunted = 0
        for b in D.bad:
            v = b.verdict
            item = {"label": b.label, "how": v.how, "text": b.text}
            if v.status == "refuted" and isinstance(v.model, smt.Valuation) and not forced:
                item["point"] = {"seed": v.model.seed, "over": v.model.over}
                S["refuted"] += 1
                S["failures"].append(item)
                continue
            w = hunt(b, min(deadline, time.time() + 15)) if hunted < 6 and len(S["failures"]) < 20 else None
            hunted += 1
            if w is not None:
                item["point"] = {"seed": w.seed, "over": w.over}
                S["refuted"] += 1
                S["failures"].append(item)
            else:
                S["unknown"] += 1
                if isinstance(v.model, dict) and not forced:
                    item["point"] = {"seed": spec["seed"], "over": input_model(v.model)}
                item["status"] = v.status
                S["undecided"].append(item)
        if S["paths"] == 1 and r.status == "done":
            S["outs"] = D.outs
            S["validate"].append(point)
            # reachability: the sample point satisfies every assumption and branch of the path
            S["vacuity"] = int(_holds(r.prover.vals[0], smt.CTX.conditions()) and D.nobl > 0)
        if len(S["failures"]) > 40:
            break
        flips(r, spec, queue, seen, S, deadline, opts)
        if opts.get("confirm", True) and r.status == "done":
            c, u, bad = r.prover.confirm(limit=opts.get("confirm_limit", 20000), timeout_s=opts.get("confirm_timeout", 10.0),
                                         chunk=opts.get("confirm_chunk", 60), deadline=min(deadline, time.time() + opts.get("confirm_budget", 20)))
            S["confirmed"] += c
            S["confirm_undecided"] += u
            S["confirm_bad"] += bad
    S["queued"] = len(queue)
    S["solver"] = {k: smt.STATS[k] - smt_before[k] for k in smt.STATS if k != "max_query_s"}
    S["solver"]["max_query_s"] = smt.STATS["max_query_s"]
    S["wall"] = time.time() - t_start
    S["functions"] = sorted(poly_functions(S["files"]))
    return S


def poly_functions(files):
    from . import load
    return load.SEEN


def spare(over, conds, seed, deadline, cap=60):
    """the model's point, keeping only the values the conditions need: the sample point stays as ordinary as it can"""
    over = dict(over)
    for name in list(over)[:cap]:
        if len(over) == 1 or time.time() > deadline:
            break
        less = {n: x for n, x in over.items() if n != name}
        if _holds(smt.Valuation(seed, less), conds):
            over = less
    return over


def flips(r, spec, queue, seen, S, deadline, opts):
    """paths that leave this one at some branch"""
    ctx = smt.CTX
    trace = list(ctx.trace)
    start = max(spec.get("script") or {-1: 0}) + 1 if spec.get("script") else 0
    cap = opts.get("flips", 10)
    done = 0
    prefix = list(ctx.assumed)
    for i, (c, v) in enumerate(trace):
        neg = poly.mknot(c) if v else c
        here = prefix + [neg]
        prefix.append(c if v else poly.mknot(c))
        if i < start or done >= cap or time.time() > deadline:
            continue
        if not flippable(c, opts):
            S["flips_open"] += 1
            continue
        key = hash((tuple(x[1] for x in trace[:i]), i, v))
        if key in seen:
            continue
        seen.add(key)
        done += 1
        S["flips"] += 1
        w = find_valuation(here, HUNT[:60], min(deadline, time.time() + 5))
        if w is not None:
            queue.append({"seed": w.seed, "over": w.over})
            continue
        st, model = smt.check(here, opts.get("flip_timeout", 5.0), defs=True, want_model=True)
        if st == "unsat":
            S["flips_infeasible"] += 1
            continue
        over = input_model(model)
        if over:
            w = find_valuation(here, [spec["seed"], "2", "3"], deadline, over)
            if w is not None:
                queue.append({"seed": w.seed, "over": spare(w.over, here, w.seed, min(deadline, time.time() + 3))})
                continue
        script = {n: t[1] for n, t in enumerate(trace[:i])}
        script[i] = not v
        queue.append({"seed": spec["seed"], "over": spec.get("over") or {}, "script": script})


def flippable(c, opts):
    if isinstance(c, bool):
        return False
    if c.op == "eq" or (c.op == "not" and c.arg.op == "eq"):
        p = c.arg if c.op == "eq" else c.arg.arg
        return all(ATOMS[i].kind == "var" for i in p.atom_ids())
    return True
