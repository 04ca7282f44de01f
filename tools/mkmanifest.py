"""Writes /verif/MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import props

COMMON = ("Bounded: for each listed size (dim, N, M, steps, call sequence) the solver's verdict covers all inputs, random draws and - where they "
          "are uninterpreted - all drifts, costs and score estimates; real arithmetic (no rounding, no ties); library calls by models that are "
          "compared with numpy/scipy/torch/POT on every run; counterexamples are replayed on the real code before they are reported. ")
NOTE = {
 "C01": "All t1, t2 = t1 + n dt + e with |e| <= 1e-5, n up to 1000 (thorough 2000), N up to 300, dim up to 16.",
 "C02": "All modes, both classes, dim up to 16, n up to 200 (1000), N up to 600.",
 "C03": "Recurrence for all drifts/scores, n up to 400 (1100), N up to 1001, M up to 150, dim up to 16; score estimates uninterpreted (their definition is C12, their arguments C11).",
 "C04": "Transport plans are uninterpreted functions of weights and cost matrix with the marginal axioms of C18; N up to 160 (numpy) and 130 (pytorch) at one step, 20 (30) at two, n up to 130 (400); drifts and costs returning their own argument or an array they keep.",
 "C05": "As C03, for the backward flow in the three deterministic modes (N up to 600).",
 "C06": "As C03, for stochastic mode with and without path cost; noise terms are matched to symbolic normal draws.",
 "C07": "Reweighted Brownian bridge, deterministic mode; n up to 50 (300), N up to 12.",
 "C08": "Every interior index for n = 11, 12, 15, 21 and selected ones up to n = 200 (400), up to 300 query points, all modes.",
 "C09": "Every end index of eleven grids and selected ones up to n = 200 (300); positivity of the sample variance is an assumption of the formula.",
 "C10": "Both inclusions decided by path exploration with branch flips (up to 24 paths); points in, on and off the box; dim up to 12, N up to 33.",
 "C11": "Every estimate of a run is matched to the cloud, length-scales and box it must use; position of every inducing point is shown affine in its own uniform draw.",
 "C12": "Real estimator code executed symbolically, matrix inverses as symbols with their defining equations; N up to 101 (300), M up to 8 (12), dim up to 12, one size large at a time.",
 "C13": "As C12 (M up to 6), pairwise between the estimators' real code.",
 "C14": "As C12 (M up to 6), relating two runs of the same real code on transformed inputs.",
 "C15": "Parallel loop bodies executed in four orders with a read/write-set check; N, N2 up to 600 (1500), dim up to 130; the compiled function is what replays run.",
 "C16": "RBF.Kernel for tensors/arrays, one or several length-scales; up to 300 points, dim up to 33.",
 "C17": "Histories of up to 7 Kernel/gradient calls on one or two objects; sizes as C16; arguments sharing memory and arrays overwritten between calls.",
 "C18": "pyemd's plan is an uninterpreted matrix with the marginal equations of its contract (assumed); N up to 40 (64), dim up to 12.",
 "C19": "Every array passed in is compared term by term before and after; arrays handed out by drift and cost too.",
 "C20": "Two runs of the real code with shared draws are compared term by term.",
 "C21": "Histories of up to 2 problems and up to 108 queries; random draws are numbered symbols, reseeding is a tracked event; query arrays overwritten and used again.",
 "C22": "Devices are modelled: every tensor carries a device tag and dtype, mixing raises; the replay runs the real torch with a pretended second device.",
 "C23": "n = 2, 3, 9 in all modes and long grids up to 2200 steps (thorough: thirteen more n up to 101, long grids up to 5200).",
}
checks = []
for pid in sorted(props.CHECKS):
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt run.py %s --tier quick" % pid,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the real Python source over real-valued terms; normal forms and z3 decide every obligation",
        "level": "model_checking",
        "level_note": COMMON + NOTE[pid],
    })
na = [
 {"property": "C24", "reason": "A statement about the limit of many particles and about distributions of simulated paths: there is no bounded assertion over one execution that a solver could decide."},
 {"property": "C25", "reason": "Finiteness in doubles depends on the conditioning of data-dependent kernel matrices and on overflow along whole flows; bit-precise floating-point encodings of the matrix inverses are out of reach of the solvers here, and over the reals the statement is vacuous."},
]
doc = {"version": 1, "setup_cmd": "python3-vt selftest.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the checks read and execute /repo's current source directly. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1)
    fh.write("\n")
