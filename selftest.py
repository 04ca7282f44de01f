#!/usr/local/bin/python3-vt
"""setup_cmd: the tools the checks need are there, and the engine tells true from false."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3  # noqa: E402
from engine import explore, props  # noqa: E402

r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, numba, torch, ot, pyemd; print('ok')"], capture_output=True, text=True,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
assert r.stdout.strip() == "ok", r.stderr[-500:]
assert z3.get_version() >= (4, 8, 0)


def truth(D, cfg):
    x, y = D.num("x"), D.num("y")
    a, b, c = (x + y) * (x + y), x * x + 2 * x * y + y * y, x * x + x * y + y * y
    D.eq("binomial", a, b)
    D.eq("not the binomial", a, c)
    D.ok("square", x * x >= 0)
    D.ok("not always", x * x * x >= y)


S = explore.explore(truth, {}, {"seed": "1"})
bad = sorted(f["label"] for f in S["failures"])
assert bad == ["not always", "not the binomial"] and S["proved"] == 2 and S["confirm_bad"] == 0, S
assert len(props.CHECKS) == 23
print("self test ok: z3 %s, %d checks" % (z3.get_version_string(), len(props.CHECKS)))
