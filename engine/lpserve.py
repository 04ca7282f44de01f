"""Transport plans in numbers for large histograms: POT's network simplex in a process of the repository's interpreter.

Used only to evaluate the plan atoms at the points where the symbolic run is evaluated (to steer and to decide branches
on probes); what is decided about a plan never rests on it."""
import sys


def main():
    import json
    import numpy as np
    from ot.lp import emd
    for line in sys.stdin:
        j = json.loads(line)
        a, b, c = np.array(j["a"]), np.array(j["b"]), np.array(j["c"])
        T = emd(a / a.sum(), b / b.sum(), c / max(c.max(), 1e-300), numItermax=2000000) * a.sum()
        sys.stdout.write(json.dumps(T.tolist()) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
