#!/usr/bin/env python3
# Regenerates properties.jsonl (the property list is kept here so that it stays valid JSON).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files[:6])}]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/"
allf = [S+f for f in ("ctsa.c","emle.c","boxjenkins.c","initest.c","regression.c","optimc.c","nls.c","newtonmin.c","secant.c","conjgrad.c","neldermead.c","lnsrchmp.c","brent.c","wavelib.c","wtmath.c","conv.c","hsfft.c","real.c","stats.c","spectrum.c","stl.c","seastest.c","unitroot.c","autoutils.c","talg.c","matrix.c","lls.c","polyroot.c","boxcox.c","filter.c","dist.c","pdist.c","errors.c","pred.c")]

p("C01","Concurrent callers on distinct objects are isolated",
  "When several callers interleave library calls on distinct objects and buffers, every call returns bit-for-bit the result it returns when its caller runs alone. This includes calls made from inside user callbacks, callers that share one read-only wavelet filter, and callers whose neighbours fail or die half-way through a call.",
  ["schedules","histories"],
  "every interleaving, at basic-block granularity, of 2-4 caller scripts over all function families, including scripts abandoned at any point",
  "The tests are single-threaded programs that make one call after another; no test ever runs two calls at once, so hidden shared state (a static scratch buffer, a cached plan) is invisible to them.",
  allf,"No mutable file-scope or function-static state: every work array is allocated per call or lives in the caller's object.")

p("C02","Refitting an object depends only on its configuration and the data",
  "Running a fit, regression or optimisation on an object that has already been used (fitted on other data, re-configured, queried, or left in a failed fit) gives exactly the results of a freshly created object with the same final configuration and the same data. The configuration is whatever the constructor and the last value of each setter said; fitting never changes it.",
  ["histories","configurations"],
  "all sequences of configure / fit / predict / query operations on one object followed by a final configure and fit",
  "Each test creates an object, fits it once and frees it; no test refits an object, so state left behind by an earlier fit is never observed.",
  [S+"ctsa.c",S+"emle.c",S+"regression.c",S+"optimc.c",S+"nls.c",S+"boxjenkins.c"],
  "arima/sarima/sarimax/ar/auto_arima/reg/opt/nls objects keep parameters, residuals, covariance and status inside the object and overwrite them on every exec.",
  [{"name":"object fields phi, theta, res, vcov, retval, options","meaning":"outputs overwritten by each fit; options owned by the setters"}])

p("C03","Results never depend on stale memory, clock or random state",
  "For the same arguments and the same call history every documented output is bit-for-bit the same, whatever the heap and stack contained before, whatever the wall clock says and whatever state the process random generator is in. (The randomised SVD is the one exception for clock and random state.)",
  ["histories","fault_sequences","inputs"],
  "all call histories under every filling of fresh heap blocks and dead stack, every clock value and every random stream",
  "A test run sees one heap content (usually zero pages) and one clock; reads of uninitialised memory happen to see zeros and pass.",
  allf,"Every work array and output is fully written before it is read; callers get every documented output element written.")

p("C04","Memory safety and conservation over every object history",
  "In every history of valid calls no call touches memory outside live blocks and its arguments, frees a block twice, or uses a freed block. After all objects of a history have been freed with their documented free functions no block allocated by the library is still live, and a call that returns no object leaves none behind (apart from documented returned arrays).",
  ["histories","configurations","inputs"],
  "all sequences of constructor / configure / execute / query / free over all object types and function families, including fits that fail early",
  "The tests do not run under a memory checker, never refit or fail a fit, and exit without accounting for memory.",
  allf,"Each function frees its own work arrays on every path; each *_free releases everything its constructor and exec attached to the object.")

p("C05","Inputs are read-only and writes stay inside the documented outputs",
  "A call never modifies its input arrays (series, regressors, coefficient vectors, matrices documented as inputs), not even temporarily, and writes only to its documented output arrays and only within their documented lengths. It also never reads beyond the documented length of an input array.",
  ["schedules","inputs","histories"],
  "all calls over all function families with every input in read-only pages observed continuously (also by a concurrent reader), at all lengths",
  "Tests pass private writable arrays, use each once and never compare them afterwards; a temporary in-place modification is visible only to a concurrent reader or a fault.",
  allf,"Inputs are copied into work arrays before centring, differencing or sorting.")

p("C06","Queries and forecasts never disturb a fitted model",
  "Forecasting, extracting the covariance and printing summaries leave every published result of a fitted model unchanged, can be repeated and interleaved in any order with identical answers, and are unaffected by failures writing to standard output. A forecast of length K is the first K entries of any longer forecast from the same model and data.",
  ["histories","fault_sequences"],
  "all sequences of predict / vcov / summary calls with varying horizons and output failures on every fitted model kind",
  "Tests call predict once with one horizon and print one summary; none repeats or reorders queries or compares the model before and after.",
  [S+"ctsa.c",S+"emle.c"],
  "predict copies parameters and residuals into work arrays; summary only reads; output status of printf is ignored.")

p("C07","Forecasts equal the conditional expectation under the published model",
  "After any history that ends in a successful fit, forecasts and their mean squared errors equal the conditional mean and variance of the future values given the observed series under the published coefficients, mean or regression terms and differencing orders, with the innovation variance this model implies for the series. This holds for every order, seasonal period, differencing order, regressor count, estimation method and horizon.",
  ["histories","configurations","inputs"],
  "all (p,d,q)(P,D,Q)s orders, methods, means, regressors and horizons reached through arbitrary fit histories",
  "Tests print the forecasts of a handful of fixed models and check nothing beyond successful completion.",
  [S+"ctsa.c",S+"emle.c"],
  "*_predict expands the seasonal polynomials, removes the mean or regression part and runs the Kalman forecast (forkal), then adds the mean back.")

p("C08","Published fit statistics agree with each other",
  "After any history ending in a fit that reports success, the published quantities are mutually consistent: information criteria follow from the log-likelihood, parameter count and sample size; the residuals, variance and log-likelihood are those of the published coefficients and mean on the data; coefficient arrays, exogenous coefficients and mean are finite; and the covariance matrix, where the Hessian has an inverse, is symmetric. A fit never reports success with non-finite results (only the likelihood of data reproduced exactly, residual variance zero, is infinite).",
  ["histories","configurations","inputs"],
  "all orders, methods, optimisers and data kinds, reached through arbitrary fit histories",
  "Tests print summaries and assert nothing about relations between fields; they run a handful of models.",
  [S+"ctsa.c",S+"emle.c"],
  "*_exec copies parameters, variance, residuals and likelihood out of the estimator and derives aic/bic/aicc and vcov.")

p("C09","Optimisers stay honest when the objective misbehaves",
  "For an objective that returns NaN or infinity at arbitrary evaluations, or whose values jump, minimisers terminate within a bounded number of evaluations and never report a success code together with a non-finite point. When the objective is a function of the point alone, a reported success is a point whose published function value is the objective's value there and is not above the value at the start. The iteration limit the caller set is respected.",
  ["fault_sequences","inputs","configurations"],
  "every fault pattern (NaN, +-Inf, huge, noisy values at the k-th evaluation or in a region) injected through the user callback, for every method, dimension and start",
  "The tests only minimise internal smooth likelihoods; no test supplies a callback that fails part-way.",
  [S+"optimc.c",S+"newtonmin.c",S+"secant.c",S+"conjgrad.c",S+"neldermead.c",S+"lnsrchmp.c",S+"nls.c",S+"brent.c"],
  "Each solver checks evaluations for NaN/overflow and returns code 15, limits iterations by MaxIter (code 4), and line searches accept only decreasing steps.")

p("C10","Randomised SVD is right for every random stream and clock",
  "Whatever the wall clock and however long the process random generator delivers extreme or repeated values before it varies, the randomised SVD returns orthonormal factors and singular values that reproduce a matrix whose rank does not exceed the requested rank, for tall and square shapes. Its input matrix is left unchanged.",
  ["fault_sequences","inputs"],
  "all clock values and random streams, including ones with constant and extreme stretches, for all shapes, ranks, oversampling and iteration counts",
  "One test calls it with whatever the clock gives; a stream on which the sketch degenerates never comes up.",
  [S+"matrix.c"],
  "rsvd seeds the generator from the clock, draws a Gaussian sketch, runs LU-normalised power iterations, QR and a small exact SVD.")

p("C11","Parallel matrix kernels give the serial result on every schedule",
  "Built with OpenMP, matrix add, subtract, scale, transpose and multiply return exactly the serial result for every team size and every interleaving of the team. No iteration's result depends on another thread's private state.",
  ["schedules","configurations"],
  "all team sizes and interleavings (at the granularity of accesses to shared memory) of the parallel loops, all shapes",
  "The project's build does not enable OpenMP and no test exercises the parallel loops, so a wrong private clause can never show.",
  [S+"matrix.c"],
  "omp parallel for over rows with all index variables private; each iteration writes disjoint outputs.")

p("C12","Wavelet objects reconstruct their input after any history",
  "After any history of transforms and mode changes on a transform object, transforming a signal and inverting reproduces the signal, the multiresolution components sum to it, and both equal what a fresh object with the same settings gives. This holds for every wavelet, length, level count, extension, convolution method and transform kind the constructors accept.",
  ["histories","configurations","inputs"],
  "all sequences of set-extension / set-convolution / forward / inverse / MRA operations on one object over all wavelets, lengths and levels",
  "One test does a single forward/inverse pair with one wavelet and prints the error; objects are never reused and modes never changed.",
  [S+"wavelib.c",S+"wtmath.c",S+"wavefilt.c",S+"conv.c",S+"hsfft.c",S+"real.c"],
  "wt/wtree/wpt objects carry mode strings, level lengths, an output buffer and an optional convolution plan that forward and inverse must agree on.",
  [{"name":"wt ext/cmethod/cfftset/length[]/output","meaning":"mode and layout state shared between forward and inverse"}])

p("C13","Spectral plans are reusable and exact after any history",
  "An FFT, real-FFT, convolution, autocovariance or spectrum plan gives the same result on its n-th use as on its first, whatever it processed in between and whatever other plans exist. Transforms equal the discrete Fourier transform, convolutions the direct sum, and FFT-based autocovariance the direct autocovariance, for every length.",
  ["histories","inputs"],
  "all histories of plan creation, reuse and destruction over all lengths (smooth, prime, composite), both directions",
  "No test exercises plan reuse or compares the FFT with a direct sum over lengths.",
  [S+"hsfft.c",S+"real.c",S+"conv.c",S+"stats.c",S+"spectrum.c",S+"talg.c"],
  "fft_object holds factor list, twiddles, direction; Bluestein path for other lengths temporarily changes the plan's direction.",
  [{"name":"fft_object sgn, lt, twiddle","meaning":"plan state that execution must restore"}])

p("C14","An allocation failure is never turned into a wrong answer",
  "When any memory allocation inside a call fails, the call either stops the process, or reports failure through its status, or produces exactly the results it would have produced. It never returns normally with a success status and wrong, partial or stale outputs, and never corrupts other live blocks or loops forever.",
  ["fault_sequences","crash_points"],
  "failure of the k-th allocation, for every k, inside every call of every function family",
  "Allocation never fails in the test environment.",
  allf,"Allocations are unchecked and the first dereference faults (fail-stop); no code path swallows a null block.")

p("C15","Every call terminates, and corrupted samples never yield a clean success",
  "Every fit, automatic selection, decomposition, transform and test finishes within a bounded amount of work for any data, including series with NaN, infinities, constant stretches or huge magnitudes inserted at arbitrary positions. A model fit on a series containing NaN or infinity does not report success together with finite-looking garbage: it stops, reports failure or publishes non-finite values.",
  ["fault_sequences","inputs"],
  "all positions and kinds of corrupted samples in the input of every fitting or analysis call",
  "Tests use a few clean data files.",
  [S+"ctsa.c",S+"emle.c",S+"stl.c",S+"seastest.c",S+"unitroot.c",S+"autoutils.c",S+"talg.c",S+"polyroot.c",S+"newtonmin.c",S+"secant.c"],
  "Iteration limits in every solver; NaN checks after objective evaluations; status 15.")

p("C16","Invalid settings are rejected without side effects",
  "A setter given a value outside its documented set leaves the object exactly as it was (or stops the process), and subsequent fits behave as if the call had never been made. A valid value always takes effect on the next run, also after any number of rejected ones.",
  ["histories","configurations"],
  "all interleavings of valid and invalid setter calls on every object type, followed by execution",
  "Tests only pass valid values and never combine several setters.",
  [S+"ctsa.c",S+"optimc.c",S+"regression.c",S+"wavelib.c"],
  "Range checks in the setters guard the option fields.")

p("C17","Automatic ARIMA selection respects its limits on every history",
  "Automatic selection always returns a model inside the configured maximum orders and differencing limits (stationary-only and seasonal settings included, and the total-order limit in exhaustive search), honours a disallowed mean or drift, and without approximation never returns a model whose information criterion is worse than that of a model the search had to consider: any admissible one in exhaustive search, a neighbour in stepwise search. It finishes within a bounded number of candidate fits even when candidate fits fail, and its published orders match its published coefficient arrays and forecasts.",
  ["histories","configurations","fault_sequences"],
  "all limit settings, search modes, criteria, data kinds and patterns of failing candidate fits",
  "Tests run the selection on three data sets with default limits and print the result.",
  [S+"ctsa.c",S+"autoutils.c",S+"seastest.c",S+"unitroot.c"],
  "auto_arima1 / search_arima enumerate candidates, keep the best criterion, refit the winner and copy it into the auto_arima object.")

# ---- not claimed (pure functions of their input) ----
p("C30","Maximum-likelihood estimates maximise the likelihood",
  "The coefficients returned by a successful likelihood fit are a local maximum of the exact Gaussian likelihood of the data over the stationary region, to optimiser tolerance.",
  ["inputs"],"all series and orders","Tests run a few data sets and only print estimates.",[S+"emle.c",S+"newtonmin.c"],"likelihood evaluation plus numerical optimisation")
p("C31","Decompositions add up to the series",
  "Seasonal-trend decompositions return components whose sum (or product, for multiplicative models) is the original series, with the seasonal component periodic where requested.",
  ["inputs"],"all series, periods and window settings","Tests print components of one series.",[S+"stl.c",S+"seastest.c"],"loess smoothing; remainder computed as the difference")
p("C32","Unit-root and seasonality tests compute their textbook statistics",
  "Each unit-root and seasonal test returns the textbook statistic and interpolated p-value for the given lag and model, and the differencing recommendations follow from them.",
  ["inputs"],"all series and test variants","Tests print values for a few series.",[S+"unitroot.c",S+"seastest.c",S+"autoutils.c"],"auxiliary regressions and critical value tables")
p("C33","Distribution functions and quantiles are accurate inverses",
  "Each cumulative distribution function is monotone in [0,1], agrees with the mathematical definition to stated accuracy and is inverted by its quantile function.",
  ["inputs"],"all arguments and parameters","No test covers them across ranges.",[S+"pdist.c",S+"dist.c",S+"erfunc.c"],"series, continued fractions and Newton inversion")
p("C34","Dense linear algebra is backward stable",
  "LU, QR, Cholesky, SVD, eigenvalue and least-squares routines return factors that reproduce the input to rounding error for every well-posed matrix.",
  ["inputs"],"all matrices","Only used indirectly by the tests.",[S+"matrix.c",S+"lls.c"],"Householder, Golub-Reinsch, Francis QR")
p("C35","Polynomial root finding returns all roots",
  "For every polynomial with non-zero leading coefficient the returned roots reproduce the coefficients to a small relative residual.",
  ["inputs"],"all real and complex polynomials","Only used indirectly.",[S+"polyroot.c"],"Jenkins-Traub iteration")
p("C36","Box-Cox transformation and its inverse are mutual inverses",
  "Transforming a positive series with any Box-Cox parameter and inverting returns the series, and the estimated parameter maximises the profile likelihood.",
  ["inputs"],"all positive series and parameters","Tests print one estimate.",[S+"boxcox.c",S+"brent.c"],"closed-form transform plus bounded scalar minimisation")
p("C37","Regression output equals ordinary least squares",
  "Coefficients, standard errors, intervals, R-squared, F and p-values of a linear regression equal the ordinary-least-squares values for every full-rank design and solver choice.",
  ["inputs"],"all full-rank designs","No test asserts on values.",[S+"regression.c",S+"lls.c"],"QR / SVD / normal-equation least squares")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
