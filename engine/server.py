"""Concrete runs on the real libraries: reads jobs (one JSON object per line) on stdin, answers on stdout.

Run by /opt/venv/bin/python.  A job {check, cfg, seed, over, stub} runs the body of the check in NumDom on a freshly
imported package and returns the obligations that fail there."""
import json
import os
import signal
import sys
import traceback


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    jit = os.environ.get("VERIF_JIT") == "1"
    if not jit:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)          # what the code prints goes to stderr
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from engine import numdom, props
    from engine.dom import Skip
    import numpy as np
    np.seterr(all="ignore")
    numdom.NumDom.jit = jit

    def alarm(*a):
        raise TimeoutError("the run takes too long")
    signal.signal(signal.SIGALRM, alarm)

    for line in sys.stdin:
        job = json.loads(line)
        ck = props.CHECKS[job["check"]]
        cfg = job["cfg"]
        if not jit:
            purge(repo)
        numdom.HOOKS.reference = bool(job.get("reference"))
        res = {"id": job.get("id"), "error": None, "fails": [], "nobl": 0, "status": "done"}
        D = None
        signal.alarm(int(job.get("limit", 150)))
        try:
            D = numdom.NumDom(cfg, job["seed"], job.get("over") or {}, stub=job.get("stub", True))
            numdom.Tracked.on = True
            ck.body(D, cfg)
        except Skip:
            res["status"] = "skipped"
        except TimeoutError as e:
            res["status"], res["error"] = "timeout", str(e)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
                raise
            tb = traceback.extract_tb(sys.exc_info()[2])
            own = [f for f in tb if f.filename.startswith(repo)]
            f = (own or tb)[-1]
            res["status"] = "raised"
            res["error"] = "%s: %s @ %s:%d" % (type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno)
            res["in_repo"] = bool(own)
            if own and job.get("over") and (not_a_number(sys.exc_info()[2], repo)
                                                or no_extent(sys.exc_info()[2])):
                # flows that have left the numbers (an overflow, 0/0) or lost their extent (a box of no width has no
                # uniform distribution): no statement is about those
                res["in_repo"], res["nan"] = False, True
            res["trace"] = traceback.format_exc()[-1500:]
        finally:
            signal.alarm(0)
            try:
                from engine import vdev
                vdev.available(False)
            except Exception:
                pass
        if D is not None:
            res["fails"] = [[a, str(b)[:300]] for a, b in D.fails[:12]]
            res["nfails"] = len(D.fails)
            res["nobl"] = D.nobl
            if job.get("outs"):
                res["outs"] = D.outs
        out.write(json.dumps(res) + "\n")
        out.flush()


def not_a_number(tb, repo):
    """did a frame of the package hold an array with nan or inf when it raised?"""
    import numpy as np

    def bad(v):
        try:
            v = np.asarray(v.detach().cpu() if hasattr(v, "detach") else v)
            return v.dtype.kind == "f" and v.size > 0 and not np.isfinite(v).all()
        except Exception:
            return False
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_filename.startswith(repo):
            vals = list(f.f_locals.values())
            if "self" in f.f_locals:
                vals += list(getattr(f.f_locals["self"], "__dict__", {}).values())
            if any(bad(v) for v in vals if isinstance(v, (np.ndarray, np.floating, float)) or hasattr(v, "detach")):
                return True
        tb = tb.tb_next
    return False


def no_extent(tb):
    """did torch refuse a uniform distribution because its box has no width (and is not upside down)?"""
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_name == "__init__" and f.f_code.co_filename.endswith(os.sep + "uniform.py"):
            low, high = f.f_locals.get("low"), f.f_locals.get("high")
            try:
                return bool((low == high).any()) and not bool((low > high).any())
            except Exception:
                return False
        tb = tb.tb_next
    return False


def purge(repo):
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if f and os.path.abspath(f).startswith(repo + os.sep) or n.split(".")[0] == "DeterministicParticleFlowControl":
            del sys.modules[n]


if __name__ == "__main__":
    main()
