"""Table of the checks: workloads, builds, numbers of cases, observations required."""
CHECKS = {}

import yjob

def check(prop, jobs, rule, require=None, level="exploration", assumptions=None,
          technique="", note=""):
    CHECKS[prop] = dict(jobs=jobs, rule=rule, require=require or {}, level=level,
                        assumptions=assumptions or [], technique=technique, note=note)

def J(harness, build, quick, thorough, **kw):
    d = dict(harness=harness, build=build, cases=(quick, thorough))
    d.update(kw)
    return d

check("C01", [J("vec", "asan", 240000, 2000000), J("huge", "plain", 34, 340)],
      rule="random operation, precision, length, aliasing, coefficients; every case executes one operation; every operation also on "
           "2^31 and 2^32 elements and some (memory shared by all the periods of the vectors)",
      require={"vaxpbypcz": 100, "vimport": 100, "nonfinite-times-zero": 100, "aliased-memory": 100})

for _p, _req, _what in (
        ("C05", {"below": 100, "above": 100, "on-bound": 100, "inside": 100}, "one projection (and a second one for idempotence)"),
        ("C06", {"blocked": 100, "free": 100, "null-component": 100}, "one projected direction and one mask of free variables"),
        ("C07", {"smin1-zero": 100, "smin1-positive": 100, "smax-infinite": 100, "smax-finite": 100}, "the three limits and all their subsets")):
    check(_p, [J("box", "asan", 720000, 4000000), J("huge", "plain", 6 if _p == "C06" else 4, 80)],
          rule="the 8x8 kinds of bounds, precisions and orientations in turn, random lengths, bounds and variables "
               "on, between or beyond the bounds; a case computes " + _what + "; a few cases with more than 2^31 variables", require=_req)

_OPT = "random optimizer family, precision, size 1-160 (mostly 1-12), options, line search, bounds (all kinds) and objective function " \
       "(convex, non-convex, piecewise, linear, flat, overflowing); a case is one monitored run of up to 80 evaluations, or 700 for a few " \
       "(some with a second run on the same optimizer and one on a fresh one)"
def opt(prop, nq, nt, require, rule=_OPT):
    check(prop, [J("opt", "asan", nq, nt)], rule=rule, require=require)
opt("C08", 96000, 1500000, {"feasibility-checks": 50000, "component-on-bound": 10000, "infeasible-start": 1000, "line-search-trials": 5000})
opt("C09", 36000, 600000, {"protocol-steps": 50000, "restarted-runs": 2000, "iterate-after-error": 100, "iterate-after-final": 200, "iterate-before-start": 500, "steepest-after-failure": 10})
opt("C11", 120000, 1800000, {"curvature-checks": 10000, "curvature-checks-bounds-sharp": 100, "sufficient-decrease-checks": 20000, "decrease-checks-backtrack-bounds": 1000, "nonmonotone-reference-above": 100, "final-iterates": 500})
opt("C12", 100000, 1200000, {"gnorm-checks": 50000, "criterion-met": 1000, "criterion-not-met": 10000, "step-checks-several-trials": 1000, "criterion-close": 5000, "criterion-exactly-met": 500, "criterion-both-thresholds": 5000, "start-near-stationary": 2000})
opt("C13", 36000, 800000, {"convex-problems": 10000, "convex-active-bounds": 1000, "convex-batches-loose": 300, "convex-batches-mean": 1000, "convex-vmlmb-default": 200, "convex-blmvm-default": 200},
    rule="random smooth strictly convex problem with known constrained minimizer (quadratic, quadratic + log-cosh), random "
         "method, rule, line search, memory, bounds, precision; a case is one problem solved until the optimizer stops")
opt("C14", 80000, 1200000, {"directions-compared": 20000, "first-steps-compared": 20000, "step-limit-checks": 20000, "step-shortened-by-bounds": 500, "step-from-delta": 50, "pairs-compared": 20000, "steepest-after-failure": 50, "steepest-initial": 5000})
opt("C33", 80000, 1200000, dict([("nlcg-rule-%d" % k, 500) for k in range(1, 9)] + [("nlcg-restarts", 100), ("nlcg-shanno-phua", 500),
    ("nlcg-step-from-fmin", 100), ("nlcg-step-from-delta", 20), ("beta-clipped", 50)]))

check("C15", [J("lnsrch", "asan", 320000, 1500000)],
      rule="a line search object of random kind and parameters used for 1-14 searches in a row on random one-dimensional functions "
           "(smooth, published test functions, piecewise, jumps, noisy, linear, infinite), steps and bounds, some abandoned or misused",
      require={"converged-0": 5000, "converged-1": 5000, "converged-2": 5000, "end-csrch-task2-status19": 100,
               "end-backtrack-task2-status20": 50, "nonmonotone-interpolations": 500, "nonmonotone-bisections": 500,
               "invalid-starts": 500, "step-changed": 50, "iterate-after-end": 500, "nonmonotone-reference-above": 500,
               "steps-tried-again": 300, "no-step-address": 50})
check("C16", [J("lnsrch", "asan", 400000, 2000000)],
      rule="ten random safeguarded steps per case: end points, values and slopes of quadratics or arbitrary, bracketed or not, in "
           "both directions, some invalid",
      require=dict([("case-%d%s" % (k, b), 500) for k in (1, 2, 3, 4) for b in ("", "-bracketed", "-backward", "-bracketed-backward")]
                   + [("invalid-inputs", 500), ("quadratic-minimizers", 1000)]))
check("C17", [J("fmin", "asan", 480000, 3000000)],
      rule="twelve kinds of functions (unimodal, multimodal, flat, stepwise, infinite, noisy) in turn, random intervals, flags, limits "
           "and precisions; a case is one minimization in the three forms of the solver",
      require={"status-0": 5000, "status-1": 500, "status-2": 100, "unimodal-converged": 3000, "flags-0": 1000, "flags-1": 1000, "flags-2": 1000,
               "flags-3": 1000, "maxeval-zero": 100, "context-comparisons": 5000, "exact-limits": 1000,
               "driven-abandoned": 1000})
check("C18", [J("gqt", "asan", 120000, 2000000), J("huge", "plain", 1600, 80000)],
      rule="random symmetric matrix of order 1-30 (mostly 1-10) by its eigenvalues (definite, indefinite, singular, null, clustered, ill-conditioned), "
           "linear term (null, along or orthogonal to the eigenvector of the smallest eigenvalue...), radius, tolerances, "
           "iteration limit, initial multiplier, precision; a case is one problem compared to the optimum given by an eigen-decomposition; others compare "
           "a huge leading dimension to a small one",
      require={"status-1": 10000, "status-2": 500, "status-4": 500, "solution-kind-0": 1000, "solution-kind-2": 1000, "solution-kind-3": 5000,
               "completed-steps": 1000, "accuracy-checks": 10000, "converged": 5000})
check("C19", [J("gqt", "asan", 48000, 200000), J("huge", "plain", 1600, 80000)],
      rule="random upper triangular matrices (graded, nearly singular, singular, diagonal, Kahan, Cholesky factors) of order 1-30 (mostly 1-12), "
           "scale, leading dimension and precision; a case is 20 estimates compared to a one-sided Jacobi SVD in extended precision; others compare "
           "a huge leading dimension to a small one",
      require={"factor-checks": 10000, "zero-on-diagonal": 2000, "n-1": 1000, "single": 5000, "double": 5000})
check("C20", [J("blas", "asan", 1200000, 4000000), J("huge", "plain", 1600, 80000)],
      rule="one kernel call: random kernel, length (also null or negative), strides (also null or negative), magnitudes up to the "
           "limits of the type, precision; NaN between the strided elements; others compare elements more than 2^31 elements apart to "
           "contiguous ones",
      require=dict([(k, 500) for k in ("amax", "asum", "axpy", "copy", "dot", "nrm2", "scal", "sum", "swap", "zero", "iamax",
                                       "negative-stride", "null-stride", "empty", "index-without-stride", "tied-elements", "single", "double")] + [("magnitude-%d" % k, 100) for k in range(1, 6)]))
check("C21", [J("blas", "asan", 1200000, 4000000), J("huge", "plain", 1600, 80000)],
      rule="one call of a matrix kernel: random kernel, options, dimensions 0-45 (mostly 0-9), leading dimensions, strides, coefficients (also 0, 1, -1), "
           "precision; NaN in all the parts that must not be used; one call out of eight has an invalid argument; others compare huge leading "
           "dimensions to small ones",
      require=dict([("%s-%s-%s-%s" % (a, b, c, d), 200) for a in ("trsv", "trmv") for b in ("upper", "lower") for c in ("notrans", "trans") for d in ("unit", "nonunit")]
                   + [("gemm-%s-%s" % (a, b), 300) for a in "nt" for b in "nt"] + [("syrk-%s-%s" % (a, b), 300) for a in ("upper", "lower") for b in "nt"]
                   + [(k, 500) for k in ("gemv", "syrk-different-strides", "potf2-upper", "potf2-lower", "potf2-indefinite",
                                         "gemv-invalid", "triangular-invalid", "gemm-invalid", "syrk-invalid", "potf2-invalid")]))
_CG = "random symmetric operator given by its eigenvalues (definite, clustered, indefinite, semi-definite, negative), preconditioner (none, " \
      "Jacobi, random, nearly exact, not positive), right hand side, initial estimate, scale, precision, order 0-40 (mostly 0-12); a case is a run of up " \
      "to 3n+25 iterations, some restarted, judged at each call in extended precision"
check("C22", [J("lcg", "asan", 320000, 3000000)], rule=_CG,
      require={"steps": 100000, "convergence-checks": 100000, "few-eigenvalues": 20000, "operator-not-positive": 1000, "preconditioner-not-positive": 1000,
               "finished": 500, "z-is-q": 1000, "restarts": 5000, "misuse": 500, "initial-products": 10000, "spectrum-10": 1000})
check("C23", [J("lcg", "asan", 320000, 3000000)], rule=_CG + "; random trust region radius",
      require={"steps": 50000, "convergence-checks": 50000, "truncated-length": 5000, "truncated-curvature": 1500, "preconditioner-not-positive": 1000,
               "start-outside": 3000, "restarts": 5000, "misuse": 500, "exactly-on-boundary": 500, "start-far-outside": 200})
_PW = "random problem (convex, multimodal, non smooth, flat, noisy, linear, huge or tiny values), dimension, number of interpolation points, " \
      "radii, limit of evaluations, scaling, maximization; a case is one minimization whose evaluated points are all recorded, repeated in " \
      "half of the cases under a transformation (opposite function, unit or power of two scaling, other content of the workspace); one case " \
      "out of 20 is a series of 12 convex problems"
check("C24", [J("powell", "asan", 36000, 800000)], rule=_PW + "; random bounds, many active",
      require={"invalid-arguments": 700, "best-point-checks": 5000, "accuracy-checks": 1000, "series": 200, "limit-reached": 1000, "component-on-bound": 2000,
               "relation-maximize": 500, "relation-repeat": 500, "relation-scaling": 300, "scaled": 2000, "maximized": 2000})
check("C25", [J("powell", "asan", 30000, 600000)], rule=_PW,
      require={"invalid-arguments": 700, "best-point-checks": 5000, "accuracy-checks": 1000, "series": 200, "limit-reached": 1000,
               "relation-maximize": 500, "relation-repeat": 500, "relation-scaling": 1000, "scaled": 2000, "maximized": 2000})
check("C26", [J("powell", "asan", 48000, 1000000)], rule=_PW + "; 0 to 5 linear or convex constraints, active or not",
      require={"invalid-arguments": 700, "evaluated-point-checks": 5000, "accuracy-checks": 1000, "series": 200, "limit-reached": 1000,
               "relation-maximize": 500, "relation-repeat": 500, "relation-scaling": 1000, "scaled": 2000, "maximized": 2000})
check("C27", [J("powell", "asan", 36000, 800000)],
      rule="the same problems for NEWUOA and COBYLA in turn, solved by the callback form and by one or two passes (restart after the end, "
           "an abandon or a misuse) of the caller-driven form; invalid creations and null contexts",
      require={"finished": 5000, "restarted": 2000, "abandoned": 500, "misused": 500, "after-end": 5000, "invalid-creations": 300, "null-context": 500})
check("C35", [J("powell", "asan", 80000, 2000000)],
      rule="the same problems for BOBYQA, NEWUOA and COBYLA in turn, at each level of printing; the standard streams are captured and each "
           "reported evaluation, radius, best point, return and error is judged against the evaluations really made; the caller-driven "
           "forms solve the same problem again, once or twice",
      require=dict([("reports-level-%d" % k, 2000) for k in range(4)] + [("report-event-%d" % k, 5000) for k in range(9)]
                   + [("report-best", 50000), ("reports-scaled", 5000), ("reports-maximized", 5000), ("reports-driven", 10000)]))
check("C36", [J("powell", "fortran1", 12000, 300000), J("powell", "fortran2", 12000, 300000), J("powell", "fortran3", 12000, 300000)],
      rule="random problems (bounds, constraints, radii, limits, levels of printing, invalid arguments) solved by BOBYQA, NEWUOA and COBYLA "
           "in turn, with the C function and with the subroutine for Fortran, under three conventions for the link names",
      require={"fortran-runs": 30000, "fortran-bobyqa": 10000, "fortran-newuoa": 10000, "fortran-cobyla": 10000, "fortran-invalid": 2000})
check("C02", [J("obj", "asan", 72000, 2000000)],
      rule="random program of object creations, uses, holds, drops, re-wraps and losses of references on spaces, vectors (created, "
           "wrapped), bounds, convex sets, line searches, operators, optimizers and driver objects, in any order, user-defined "
           "classes included; after each step all reference counts, blocks and calls of release functions are compared to a model of the owners",
      require=dict([(k, 1000) for k in ("release-callbacks", "rewraps-with-release", "rewraps-same", "sets-used",
        "optimizers-used", "vectors-used", "holds", "null-objects")] + [("destroyed-" + k, 1000) for k in
        ("space", "vector", "set", "line-search", "operator", "nlcg", "vmlmb", "driver", "object")] + [("reference-counts-checked", 100000), ("rewraps-refused", 300), ("same-vector-twice", 300)]))
check("C03", [J("obj", "asan", 360000, 4000000)],
      rule="13 kinds of constructors with random arguments; for each, every allocation in turn is made to fail alone, then "
           "with all the following ones; solvers are run without any memory available",
      require=dict([("scenarios-" + k, 1000) for k in ("space", "vcreate", "wrap", "lnsrch", "boxset", "nlcg", "vmlmb", "driver",
        "newuoa", "cobyla", "convexset", "operator", "object")] + [("failures-injected", 50000), ("failures-not-first", 10000),
        ("failures-persistent", 10000), ("recoveries", 10000), ("optimizers-run-without-memory", 500), ("solvers-run-without-memory", 500)]))
check("C04", [J("obj", "asan", 360000, 4000000)],
      rule="one incorrect call (table of functions, argument positions and kinds of incorrect value) or one set of options, "
           "valid or not, some at the limits of the admissible values; constructors compared to the option checkers",
      require=dict([("incorrect-calls", 20000), ("checked-handler", 500), ("options-vmlmb-valid", 500), ("options-vmlmb-invalid", 500),
        ("options-nlcg-valid", 500), ("options-nlcg-invalid", 500), ("driver-null", 200), ("rewrap-refused", 200), ("fmin-refused", 200),
        ("invalid-starts", 200)] + [("errno-%d" % k, 100) for k in (12, 14, 22)] + [("status-%d" % k, 100) for k in (1, 3, 4, 6, 7)]
        + [("lnsrch-%d-%s" % (k, v), 100) for k in (0, 1, 2) for v in ("valid", "invalid")]
        + [("constructor-refused-%d" % k, 50) for k in range(11)] + [("boxset-refused-%d" % k, 50) for k in range(5)]))
check("C28", [J("strings", "asan", 1000000, 4000000)],
      rule="one status, error code, method name, description or constant name (published, mutated or random), copied into buffers of "
           "any size (null, truncating, exact, larger) between guard bytes",
      require=dict([("reasons-" + k, 500) for k in ("opk", "bobyqa", "newuoa", "cobyla")] + [("descriptions-" + k, 200) for k in ("NLCG", "VMLM/L-BFGS", "VMLMB", "BLMVM")]
        + [("errno-" + k, 100) for k in ("ENOMEM", "EFAULT", "EINVAL", "other")] + [("rule-%d" % k, 100) for k in range(1, 9)]
        + [("constants", 1000), ("not-constants", 1000), ("copies", 1000), ("copies-truncated", 500), ("copies-empty-buffer", 100), ("copies-of-null", 100), ("all-flags", 50), ("driver-texts", 500)]))
check("C29", [J("drv", "asan", 180000, 4000000)],
      rule="random options, line search, bounds, precision and function; up to four optimizers (low level, driver, other expressions of "
           "the same bounds, omitted or default options, arrays moved between calls) run in lock-step",
      require=dict([("states-compared", 100000), ("driver-runs", 10000), ("low-level-runs", 10000), ("lbfgs", 2000), ("vmlmb", 2000), ("blmvm", 2000),
        ("default-options", 2000), ("arrays-moved", 10000), ("bounds-released", 5000), ("restarted", 2000), ("infinite-values", 500), ("scalar-bounds", 500)]
        + [("nlcg-rule-%d" % k, 500) for k in range(1, 9)] + [("driver-%s-%d" % (b, k), 500) for b in ("lower", "upper") for k in range(1, 7)]
        + [("low-level-%s-7" % b, 300) for b in ("lower", "upper")] + [("task-%d" % k, 100) for k in (-1, 1, 2, 3)]))
_ACT = "2 to 7 actors (low-level optimizers, driver, line searches, one-dimensional and derivative-free solvers in both forms, linear " \
       "conjugate gradients, trust-region step, safeguarded step, vectors, bounds, all the kernels of the linear algebra, " \
       "operators, texts, queries and options of everything, incorrect calls with an error handler), with the text they print, "
_KINDS = ("low-level", "driver", "line-search", "fmin-driven", "fmin-callback", "powell-driven", "powell-callback", "cg", "gqt", "cstep", "vector", "box", "blas", "text", "refused", "all-kernels", "misuse", "operator", "varied")
check("C10", [J("inter", "asan", 120000, 4000000), J("inter", "msan", 60000, 2000000), J("powell", "asan", 4000, 400000), J("opt", "msan", 8000, 400000, args=["--prop", "C08", "--as", "C10"])],
      rule=_ACT + "run alone then interleaved step by step and inside the callbacks of each other, some destroyed early, with other contents "
           "of fresh memory and workspaces; every observable value of each step compared",
      require=dict([("actor-" + k, 4000) for k in _KINDS] + [("compared-" + k, 4000) for k in _KINDS]
                   + [("steps-compared", 1000000), ("steps-in-callbacks", 100000), ("twins", 10000), ("spaces-shared", 1000), ("relation-repeat", 200)]))
def _as(h, p, n, t):
    a = ["--prop", p, "--as", "C30"]
    return [J(h, "asan", n, t, args=a, shards=8), J(h, "msan", n, t, args=a, shards=8)]
check("C30", [J("wild", "asan", 160000, 8000000), J("wild", "msan", 120000, 6000000), J("inter", "asan", 6000, 400000), J("inter", "msan", 6000, 400000)]
      + sum([_as(h, p, n, 100*n) for h, p, n in (("opt", "C08", 4000), ("opt", "C33", 3000), ("lnsrch", "C15", 6000), ("lnsrch", "C16", 4000), ("vec", "C01", 8000),
             ("box", "C05", 6000), ("box", "C06", 6000), ("box", "C07", 6000), ("fmin", "C17", 6000), ("gqt", "C18", 3000), ("gqt", "C19", 1000), ("blas", "C20", 8000), ("blas", "C21", 8000),
             ("lcg", "C22", 4000), ("lcg", "C23", 4000), ("powell", "C24", 2000), ("powell", "C25", 1500), ("powell", "C26", 2000), ("powell", "C27", 1500), ("obj", "C02", 4000),
             ("obj", "C04", 8000), ("strings", "C28", 12000), ("drv", "C29", 4000))], [])
      + [J("obj", "asan", 6000, 600000, args=["--prop", "C03", "--as", "C30"])],
      rule="calls with data of nine ranges of magnitude (subnormal to the largest numbers, infinite or invalid function values), orders 1-4, "
           "all solvers, actors interleaved, and the workloads of all the other checks, each under the address and undefined behaviour sanitizers "
           "(also conversions out of range) and under the detector of uninitialized values, fresh memory and outputs being poisoned",
      require=dict([("magnitudes-%d" % k, 5000) for k in range(9)] + [("area-" + k, 5000) for k in ("optimizer", "lnsrch", "fmin", "bobyqa", "newuoa", "cobyla", "cg", "gqt")]
                   + [("area-actor-" + k, 200) for k in _KINDS] + [("calls", 300000), ("area-print", 1000)]))
check("C31", [J("threads", "tsan", 16000, 600000)],
      rule="2 to 6 threads started together, each stepping 1 to 3 actors of its own (the kinds of C10 and refused creations, often the same "
           "kind or even the same sequence of calls in all threads), with yields and nested steps in the callbacks, under the race detector; "
           "every observable value of each step compared to the run alone",
      require=dict([("thread-actor-" + k, 1500) for k in _KINDS] + [("steps-in-threads", 500000), ("steps-compared", 500000), ("threads", 30000), ("yields", 30000), ("threads-printing", 1000), ("threads-with-errors", 1000)]))
check("C32", [dict(name="yorick", python=yjob.job, cases=(8000, 300000))],
      rule="scenarios in the interpreter: optimizers driven step by step, the drivers, derivative-free solvers and their drivers, trust-region "
           "step, texts and constants, lives of the objects, incorrect calls mixed in; types, dimensions and expressions of the arguments vary; "
           "the exact log is judged line by line against the C interface",
      require=dict([("events", 20000), ("incorrect-calls", 500)] + [(k, 50) for k in ("nlcg", "vmlmb", "blmvm", "single", "double", "no-bound",
        "scalar-bound", "array-bound", "iterates", "converged", "restarted", "opk_minimize", "maxeval", "newuoa", "cobyla", "gqtpar", "constants",
        "texts", "objects", "aliases", "releases")] + [(k, 10) for k in ("maxiter", "verbose", "newuoa_minimize", "newuoa_maximize", "cobyla_minimize",
        "cobyla_maximize", "failures", "not-started", "gqt-pointee", "gqt-member", "gqt-temporary", "gqt-packed", "gqt-incorrect")]))
check("C34", [J("custom", "asan", 200000, 20000000), J("custom", "msan", 60000, 4000000)],
      rule="vector operations, applications of operators and of the operations of sets, runs of optimizers with vector spaces, sets and line "
           "searches of the caller which delegate to hidden built-in objects and check each call, compared to runs with built-in objects; "
           "operations missing or failing at a random call, line searches with random steps and outcomes",
      require=dict([("twin-%s-%d" % (k, i), 200) for k in ("blmvm", "vmlmb") for i in range(1, 8)] + [("twin-%s-%d" % (k, i), 1000) for k in ("nlcg", "lbfgs") for i in range(1, 4)]
                   + [("set-failure-%d" % i, 500) for i in range(4)] + [("set-missing-%d" % i, 300) for i in range(4)] + [("operator-applied-%d" % i, 3000) for i in (1, 2, 3)]
                   + [("script-accepted-1", 10000), ("script-accepted-2", 1000), ("script-failed--1", 1000), ("script-failed-2", 1000), ("search-clipped", 1000),
                      ("create-failures", 2000), ("import-4", 1000), ("export-4", 1000), ("vector-operations", 50000), ("twin-steps", 200000)]))
NA = {}
