"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os

MAIN = "DeterministicParticleFlowControl/DeterministicParticleFlowControl.py"
SC = "DeterministicParticleFlowControl/score_estimators/score_function_estimators.py"
SC2 = "DeterministicParticleFlowControl/score_estimators/score.py"
SCT = "DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py"
RBF = "DeterministicParticleFlowControl/kernels/RBF_pytorch.py"
OT = "DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py"
DEV = "DeterministicParticleFlowControl/utils/utils_pytorch.py"

NOTEST = ("The repository's stable tests only compare my_cdist with scipy on random data; nothing in them builds a DPFC or "
          "torched_DPFC object, so no run of ")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


Zst = ("Z", "forward particles, dim x N x k", MAIN)
Bst = ("B", "backward particles, dim x N x k", MAIN)
Tst = ("Ztr", "forward particles with the true drift (Brownian bridge only)", MAIN)

prop("C01", "Time grid and particle arrays",
     "For every t1 and t2 that lie a whole number n of time steps (0.001) apart, a DPFC or torched_DPFC object has the time "
     "grid t1, t1+0.001, ..., t2 with n+1 points in increasing order. Its forward and backward particle arrays (and the "
     "true-drift array of a Brownian bridge) have shape dim x N x (n+1), where dim is the number of entries of y1.",
     ["inputs", "configurations"], "every t1 (real), n, dim, N >= 2, M, class and mode",
     NOTEST + "the grid construction is tested for any t1, t2.", [MAIN],
     [("timegrid / k / array allocation in __init__", MAIN)], [Zst, Bst], ["obj.timegrid", "obj.Z.shape", "obj.B.shape"])

prop("C02", "Flows start and end where the user asked",
     "In every mode (deterministic or stochastic, with or without path cost, Brownian bridge) of DPFC and torched_DPFC, every "
     "forward particle (also of the true-drift flow) is at y1 at the first time, every backward particle is at y2 at the last "
     "time and at y1 at the first time, in every coordinate.",
     ["inputs", "configurations"], "every y1, y2, drift, cost, noise amplitude, draw, dim, N and mode",
     NOTEST + "the boundary conditions is tested in any mode.", [MAIN],
     [("initial and terminal assignments of the sampling methods", MAIN)], [Zst, Bst, Tst], ["obj.Z[:,:,0]", "obj.B[:,:,0]", "obj.B[:,:,-1]"])

prop("C03", "Deterministic forward flow follows the probability-flow equation",
     "In deterministic mode without a path cost the first forward step is Z1 = Z0 + f(Z0,t0) dt + g sqrt(dt) xi with an "
     "independent standard normal xi for every coordinate and particle. Every later step is Z' = Z + (f(Z,t) - g^2 s/2) dt, "
     "where t is the time of Z and s is the score estimate built from the cloud Z (as in C11) and evaluated at Z; no step is skipped, "
     "repeated or changed, however long the run. This holds for DPFC and torched_DPFC.",
     ["inputs", "configurations", "histories"], "every drift f (as an arbitrary function of position and time), g, y1, t1, draw, every step of a run",
     NOTEST + "the forward integration is compared with the equation.", [MAIN],
     [("forward_sampling_Otto / f_seperate", MAIN)], [Zst], ["obj.Z"])

prop("C04", "Path cost reweights the forward particles by exp(U dt) and optimal transport",
     "With a path cost U, after every forward step (from the first on, in deterministic and in stochastic mode, also for the "
     "guiding flow of a Brownian bridge) the cloud Z is replaced by N Z T, where T is the optimal transport plan between the "
     "weights w_i = exp(U(z_i,t) dt)/sum_j exp(U(z_j,t) dt) at that step's own time t and the uniform weights, for a cost "
     "proportional to the distance (DPFC) or squared distance (torched_DPFC) between particles; so the mean of the new "
     "cloud is the weighted mean of the old one.",
     ["inputs", "configurations", "histories"], "every cost function U, drift, draw, every transport plan with the right marginals, every step",
     NOTEST + "a constrained problem is made.", [MAIN, OT],
     [("weights and transport in forward_sampling_Otto and forward_sampling", MAIN), ("reweight_optimal_transport_multidim", OT)],
     [Zst], ["obj.Z", "arguments of the transport solver"])

prop("C05", "Deterministic backward flow follows the time-reversed equation",
     "In deterministic mode (with or without path cost) the first backward step from the end is B - f(B,t) dt + g^2 s_Z dt + "
     "g sqrt(dt) xi with an independent standard normal per coordinate and particle, and every further one is "
     "B - (f(B,t) - g^2 s_Z + g^2 s_B/2) dt. Here B is the backward cloud at the time t being left, s_Z is the score estimate (as in C11) of "
     "the forward cloud of that same time and s_B that of B itself, both evaluated at B. This holds for DPFC and torched_DPFC.",
     ["inputs", "configurations", "histories"], "every drift, g, y1, y2, draw, every step of a run",
     NOTEST + "the backward integration is compared with the equation.", [MAIN],
     [("backward_simulation / density_estimation / bw_density_estimation", MAIN)], [Zst, Bst], ["obj.B"])

prop("C06", "Stochastic mode is an Euler-Maruyama simulation in both directions",
     "With deterministic=False every forward step is Z' = Z + f(Z,t) dt + g sqrt(dt) xi at the time t of Z (before any "
     "reweighting), and every backward step is B - f(B,t) dt + g^2 s_Z dt + g sqrt(dt) xi at the time t of B, s_Z being the "
     "score estimate (as in C11) of the forward cloud of that time evaluated at B. All normals xi are independent across coordinates, "
     "particles, steps and directions. This holds for DPFC and torched_DPFC.",
     ["inputs", "configurations", "histories"], "every time-dependent drift, g, y1, y2, draw, every step of a run",
     NOTEST + "the stochastic mode is made.", [MAIN],
     [("forward_sampling / backward_simulation", MAIN)], [Zst, Bst], ["obj.Z", "obj.B"])

prop("C07", "Brownian bridge: true-drift flow and the flows that use it",
     "With reweight and brown_bridge set in deterministic mode, the true-drift flow obeys the deterministic forward equation "
     "with f_true in place of f and is never reweighted. The guiding forward flow and the backward flow use f and not f_true, "
     "and controls at every time use the true-drift flow in place of the guiding forward flow. This holds for DPFC and "
     "torched_DPFC.",
     ["inputs", "configurations", "histories"], "every f, f_true, U, g, draw, every step, every query",
     NOTEST + "a Brownian bridge problem is made.", [MAIN],
     [("forward_sampling_Otto_true / f_seperate_true / calculate_u", MAIN)], [Zst, Bst, Tst], ["obj.Ztr", "obj.calculate_u"])

prop("C08", "Interior controls are the difference of backward and forward scores",
     "For a time index i with 6 <= i <= k-6 (k grid points), calculate_u(grid, i) returns a dim x K array whose column j is "
     "the score estimate of the backward cloud minus the score estimate of the forward cloud (as in C11), both of time i, evaluated at row "
     "j of the K x dim query array, exactly at the points asked for, inside or outside the clouds. Both estimates use the "
     "same inducing points. This holds for DPFC and torched_DPFC.",
     ["inputs", "configurations"], "every pair of flows, every query array, every interior time index",
     NOTEST + "calculate_u is made.", [MAIN], [("calculate_u", MAIN)], [Zst, Bst], ["obj.calculate_u"])

prop("C09", "Controls near both ends use Gaussian fits of the two clouds",
     "For a time index i <= 5 or i >= k-5 (other than the two end points, where the clouds are single points) "
     "calculate_u(grid, i) returns, in row d and column j, -(x_jd - mB_d)/sB_d^2 + (x_jd - mZ_d)/sZ_d^2, where m and s are mean "
     "and standard deviation of coordinate d of the backward and forward clouds of time i. This holds for DPFC (population "
     "deviation) and torched_DPFC (sample deviation).",
     ["inputs", "configurations"], "every pair of flows, every query array, every edge time index",
     NOTEST + "calculate_u is made.", [MAIN], [("calculate_u", MAIN)], [Zst, Bst], ["obj.calculate_u"])

prop("C10", "check_if_covered is true exactly inside both clouds",
     "check_if_covered(x, i), for a point x of dim coordinates, is true exactly when, in every coordinate, x lies between the "
     "smallest and largest value (inclusive) of the forward cloud of time i and also of the backward cloud of time i. This "
     "holds for DPFC and torched_DPFC.",
     ["inputs", "configurations"], "every pair of clouds, every point, every time index",
     NOTEST + "check_if_covered is made.", [MAIN], [("check_if_covered", MAIN)], [Zst, Bst], ["obj.check_if_covered"])

prop("C11", "Every score estimate gets the right samples, length-scales and inducing points",
     "Every score estimate made while sampling or evaluating a control uses length-scale 2 x standard deviation per coordinate "
     "of the cloud it is built from, weight C=0.001 and M inducing points drawn independently and uniformly, per coordinate, "
     "in a box: the range of the cloud itself for forward flows; for backward flows and interior controls the overlap "
     "of the ranges of the two clouds involved in DPFC (the gap between them where they do not overlap) and the union of their ranges in torched_DPFC (the forward range alone "
     "in the first backward step of torched_DPFC, where the backward cloud is one point).",
     ["inputs", "configurations", "histories"], "every cloud, M, draw, every estimate made in a run and in a query",
     NOTEST + "the arguments of the score estimators are observed.", [MAIN],
     [("f_seperate, f_seperate_true, density_estimation, bw_density_estimation, calculate_u", MAIN)], [Zst, Bst, Tst],
     ["arguments of the score estimators"])

prop("C12", "Score estimators compute the regularised sparse kernel estimate",
     "For samples X, inducing points Z, length-scale l (number or one per coordinate) and weight C, every numpy estimator "
     "(per dimension, all dimensions, scipy-only legacy ones) and the pytorch one return "
     "-k(x,Z) [(C+0.001) I + (K_ZZ+0.001 I)^-1 K_ZX K_XZ]^-1 (K_ZZ+0.001 I)^-1 h, with RBF kernel k and "
     "h_m = -sum_n (x_n - z_m)_d k(x_n,z_m)/l_d^2, at the samples or, with func_out, at any points x.",
     ["inputs", "configurations"], "every X, Z, x (real), l > 0, C > 0, every coordinate d",
     "The stable tests never call an estimator; the unstable ones compare variants on a few random draws.", [SC, SC2, SCT],
     [("score_function_multid_seperate, _all_dims, _old, score_function_multid_seperate2", SC),
      ("torched_score_function_multid_seperate_all_dims", SCT)], (), ["return value"])

prop("C13", "All score estimators agree with each other",
     "For the same X, Z, l and C: function output evaluated at X equals the direct output; column d of an all-dimensions "
     "estimate equals the per-dimension estimate for coordinate d+1; the pytorch, numpy and legacy estimators agree; a number l "
     "gives the same as a vector with all entries equal to it; and C is honoured by all of them, for arrays, lists and "
     "tensors as documented.",
     ["inputs", "configurations"], "every X, Z, x, l > 0, C > 0, input type and output form",
     "Comparisons exist only in tests that are not part of the stable set, for a handful of random inputs and one C.",
     [SC, SC2, SCT, RBF], [("all estimators", SC), ("torched estimator", SCT)], (), ["return value"])

prop("C14", "Score estimates transform like gradients of a log density",
     "Shifting samples, inducing and query points together leaves an estimate unchanged; scaling them and the length-scales "
     "by c > 0 divides it by c; mirroring one coordinate flips the sign of that coordinate's estimate only; reordering "
     "samples reorders the estimates at the samples and leaves the function output unchanged.",
     ["inputs"], "every X, Z, x, l, shift, scale c > 0, mirrored coordinate, permutation of samples",
     "No test transforms its inputs.", [SC, SCT, RBF], [("all estimators", SC), ("torched estimator", SCT)], (), ["return value"])

prop("C15", "my_cdist writes exactly the pairwise distances",
     "my_cdist(r, y, out, dist) sets out[i,j] to the Euclidean distance (dist 'euclidean', the default) or squared distance "
     "('sqeuclidean') between row i of r and row j of y for every i and j, whatever out held before, and writes nothing else. "
     "The result does not depend on how the parallel loop iterations are ordered or divided between threads.",
     ["inputs", "schedules", "configurations"], "every r, y, prior content of out, sizes N, N2, M, order of parallel iterations",
     "The stable test compares one random input per metric on whatever schedule the machine happens to take.", [SC],
     [("my_cdist", SC)], (), ["output array"])

prop("C16", "RBF kernel values",
     "RBF(length_scale, signal_variance, multil).Kernel(X, Y) is signal_variance * exp(-sum_d (x_d-y_d)^2/(2 l_d^2)) for every pair "
     "of rows, with one length-scale for all coordinates or one per coordinate, for tensors and numpy arrays; with Y left out it "
     "is the kernel of X with itself (symmetric, signal_variance on the diagonal).",
     ["inputs", "configurations"], "every X, Y, l > 0, signal variance",
     "The stable kernel test checks the value on single random inputs.", [RBF], [("RBF.Kernel", RBF)], (), ["return value"])

prop("C17", "RBF kernel gradient depends only on its arguments",
     "gradient_X(X, Y) returns the N x M x dim array (x-y)_d k(x,y)/l_d^2 for its own X and Y (Y left out: X), whatever the "
     "kernel object was used for before. No sequence of Kernel and gradient_X calls changes what a later call returns.",
     ["inputs", "histories"], "every X, Y, l > 0, signal variance, every sequence of earlier calls",
     "Tests call Kernel and gradient_X once each, on the same data.", [RBF], [("RBF.gradient_X / Kernel", RBF)],
     [("K_data", "kernel matrix of the last call", RBF)], ["return value"])

prop("C18", "Transport map has the right marginals and preserves the weighted mean",
     "reweight_optimal_transport_multidim(samples, w), for N samples and weights w >= 0 summing to one, returns a non-negative "
     "N x N map T with every column summing to 1 and row i summing to N w_i, so that samples^T T has mean sum_i w_i x_i. It is N times "
     "the transport plan computed between w and the uniform weights for the Euclidean distances between samples.",
     ["inputs"], "every set of samples, every weight vector, every optimal plan the solver may return",
     "No test calls the reweighting.", [OT], [("reweight_optimal_transport_multidim", OT)], (), ["return value", "arguments of emd_with_flow"])

prop("C19", "Nothing the user passes in is modified, and queries leave the flows alone",
     "Building a DPFC or torched_DPFC, querying controls or coverage, estimating a score, evaluating a kernel or computing a transport "
     "map never changes the arrays passed in (y1, y2, query points, samples, inducing points, length-scales, weights). "
     "calculate_u and check_if_covered change none of Z, B, Ztr and the time grid.",
     ["inputs", "histories"], "every input, every mode, every sequence of queries",
     "Tests never look at their inputs after a call.", [MAIN, SC, SCT, RBF, OT],
     [("constructors, queries, estimators", MAIN)], [Zst, Bst, Tst], ["arguments after the call", "obj.Z, obj.B after queries"])

prop("C20", "Options documented as inert or as fallback do not change the flows",
     "Choosing kern='periodic' gives exactly the flows and controls of kern='RBF', and the values of reject and dens_est "
     "have no influence on flows and controls; U has none when reweight is off, and neither has f_true without a reweighted Brownian bridge. "
     "Lists, arrays and (for torched_DPFC) tensors holding the same y1 and y2 give the same result.",
     ["inputs", "configurations"], "every problem and every setting of those options, for the same random draws",
     NOTEST + "two option settings are compared.", [MAIN], [("__init__ of DPFC and torched_DPFC", MAIN)], [Zst, Bst], ["obj.Z", "obj.B", "obj.calculate_u"])

prop("C21", "Results depend only on the problem, the query and fresh random draws",
     "Controls and coverage for (x, i) obey their defining formulas whatever queries were made before and whatever other "
     "problems were built in the process. Every random number used (noise and inducing points) is a new draw: none is used "
     "twice, and the library never reseeds the global generators.",
     ["histories", "inputs"], "every sequence of constructions and queries within the bound, every draw",
     "No test makes two queries or two problems.", [MAIN, SCT, RBF], [("calculate_u, check_if_covered, samplers", MAIN)], [Zst, Bst],
     ["obj.calculate_u over sequences", "the random generators"])

prop("C22", "torched_DPFC works in double precision on the requested device",
     "With a device given and drift, cost and inputs on that device, torched_DPFC, its controls and coverage test, the pytorch "
     "estimator and the RBF kernel keep every array they create or return there in float64, draw all their random numbers in "
     "float64 there, and never combine arrays of different devices. set_device names 'cuda' when CUDA is available and 'cpu' otherwise.",
     ["configurations", "inputs"], "every mode, query and estimator call; a second device besides the CPU",
     "The tests run on whatever device the machine has, here the CPU, where a misplaced array goes unnoticed.", [MAIN, SCT, RBF, DEV],
     [("device= and dtype= arguments", MAIN), ("set_device", DEV)], [Zst, Bst, Tst], ["device and dtype of results"])

prop("C23", "Long and short grids: every time index is treated by the same law",
     "For every run of n steps with n >= 2 every time index other than the first is written exactly by its own step of the governing "
     "law in the forward and in the backward flow: flows contain no untouched (zero) columns, no column overwritten later "
     "by another step, and the backward flow is stored in forward time order. This holds for DPFC and torched_DPFC.",
     ["inputs", "configurations", "histories"], "every n within the bound, every mode",
     NOTEST + "array columns are traced to the step that wrote them.", [MAIN],
     [("index arithmetic ti / rev_ti in the sampling methods", MAIN)], [Zst, Bst, Tst], ["obj.Z", "obj.B"])

prop("C24", "The guided process reaches the target with the right statistics",
     "Simulating dx = (f + g^2 u) dt + g dW with the controls of calculate_u brings the process from y1 to y2 and, in the limit of many "
     "particles and inducing points, with the statistics of the process conditioned on the end point and path cost.",
     ["inputs"], "every problem, in the limit of N, M to infinity",
     "A statistical limit; tests cannot settle it.", [MAIN], [("the method as a whole", MAIN)], (), ["controlled trajectories"])

prop("C25", "Flows and controls stay finite in floating point",
     "For problems with bounded drift and cost every entry of the flows and of interior controls is a finite double.",
     ["inputs"], "every problem with bounded drift and cost", "Floating-point overflow and conditioning of the kernel matrices depend on the data.",
     [MAIN, SC, SCT], [("inverses of regularised kernel matrices", SC)], (), ["obj.Z", "obj.B"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
