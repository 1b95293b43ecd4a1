"""Writes /verif/properties.jsonl (the single place where property texts are edited)."""
import json, os

C = "stochopy/optimize/_common.py"
DE = "stochopy/optimize/de/_de.py"
DEC = "stochopy/optimize/de/_constraints.py"
DES = "stochopy/optimize/de/_strategy.py"
PSO = "stochopy/optimize/cpso/_cpso.py"
PSOC = "stochopy/optimize/cpso/_constraints.py"
PSO0 = "stochopy/optimize/pso/_pso.py"
NA = "stochopy/optimize/na/_na.py"
CMA = "stochopy/optimize/cmaes/_cmaes.py"
CMAC = "stochopy/optimize/cmaes/_constraints.py"
VD = "stochopy/optimize/vdcma/_vdcma.py"
MC = "stochopy/sample/mcmc/_mcmc.py"
HM = "stochopy/sample/hmc/_hmc.py"
SC = "stochopy/sample/_common.py"
OPT = [C, DE, PSO, PSO0, NA, CMA, VD]


def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": a,
    }


props = [
    P("C01", "Seeded results do not depend on how the evaluations are executed",
      "With an integer seed and a deterministic objective, a run in which the whole population is updated at once (updating='deferred', or CMA-ES, VD-CMA, NA) returns bit for bit the same result (x, fun, nit, nfev, status, message, xall, funall) whether its evaluations run serially, on joblib threads or processes with any number of workers, or on any number of MPI ranks, and in whatever order and at whatever speed individual evaluations finish. "
      "Repeating any seeded call (immediate updating and the samplers included), through minimize()/sample() or through the method's own function, returns the same result again, whatever state numpy's global generator was in before.",
      ["schedules", "configurations", "inputs"],
      "every backend, worker/rank count, task start/finish order, evaluation duration, method and option combination",
      "The tests run the threading backend with 2 workers for 9 DE/PSO/CPSO option sets, MPI with a single rank, loky never, and compare final x only, under whatever one schedule the OS happens to give.",
      OPT, [("ordered parallel map / MPI gather of the population's values", C), ("seed applied before the first draw", "minimize()/sample() of every method")],
      observe=["return value", "objective calls"]),
    P("C02", "All MPI ranks return the same result and never deadlock",
      "When the same optimisation is run on every rank with the mpi backend and a deterministic objective, every rank returns the same complete result after the same number of iterations, with and without a seed, for any number of ranks (also more ranks than candidates) and any relative speed of the ranks and messages. "
      "No rank ever waits for a message that is never sent, and ranks never enter mismatched collective operations.",
      ["schedules", "configurations", "histories"],
      "rank counts, private generator states of the ranks, message timings and rank stalls, methods and options",
      "The tests use MPI with one rank, where no message is ever exchanged.",
      [C, CMA, NA, DE, PSO, VD], [("Bcast of the population, Barrier, Allreduce of the values", C)],
      observe=["per-rank return value", "collective calls on MPI.COMM_WORLD"]),
    P("C03", "Every candidate is evaluated exactly once, intact, and counted",
      "In every iteration each candidate of the population is passed to the objective exactly once in total over all workers or ranks, as a one-dimensional float array of length len(bounds), followed by exactly the user's extra args, and the array's content does not change while it is being evaluated. "
      "The reported nfev equals the number of objective evaluations made so far: popsize per iteration for the optimizers, every call for HMC; MCMC evaluates once at the start and at most once per further sample.",
      ["schedules", "configurations", "inputs"],
      "population sizes (divisible by the worker/rank count or not), backends, worker/rank counts, schedules, methods",
      "No test counts or inspects objective calls; only popsize 8 with 2 workers and popsize divisible by one rank are run.",
      OPT + [HM, MC], [("population split over workers/ranks", C), ("nfev bookkeeping", "main loop of every method"), ("count()", HM)],
      observe=["objective calls", "nfev in result and callback state"]),
    P("C04", "Parallel evaluation uses the requested workers and no more",
      "With a joblib backend and workers=w, never more than w evaluations are in progress at any time, and with evaluations of equal duration on the threading backend a generation of p candidates takes ceil(p/w) evaluation times; workers=-1 means as many as there are CPUs. "
      "With MPI, each iteration's candidates are shared evenly: the numbers evaluated by any two ranks differ by at most one.",
      ["schedules", "configurations"],
      "worker/rank counts, population sizes, evaluation durations and schedules",
      "The tests look at results only; a backend that silently evaluates serially or oversubscribes passes them all.",
      [C], [("Parallel(n_jobs=workers)", C), ("strided split over ranks", C)],
      observe=["objective calls in simulated time", "rank of each call"]),
    P("C05", "The returned solution is a real evaluation, and the best one",
      "The x an optimizer or sampler returns is a point at which the objective was actually evaluated, and fun is the value obtained there (with constraints='Penalize', fun may exceed it by a non-negative penalty, which is zero for a candidate strictly inside the bounds). "
      "fun is the smallest value obtained in the whole run for DE, PSO, CPSO and NA, the smallest (penalised) value of the last iteration for CMA-ES and VD-CMA, and the smallest value in the chain, its first sample included, for the samplers.",
      ["histories", "inputs", "schedules", "configurations"],
      "all objective shapes (ties, plateaus, huge or negative values, optimum at start, in a corner or never improved), options, backends and schedules",
      "The tests check x against one stored vector per option set on one smooth function; fun is never compared with the objective.",
      OPT + [CMAC, MC, HM], [("selection_sync/selection_async", C), ("competitive restart keeps the best", PSO), ("imin/fmin tracking", MC)],
      observe=["return value", "objective calls"]),
    P("C06", "xall and funall are a faithful record of the run",
      "With return_all, xall and funall have exactly one row per completed iteration, in order and in the user's coordinates: the first ceil(verbosity*popsize) members of that iteration's population, or with verbosity=0 the best member of that population; a sampler's chain has maxiter rows. "
      "Every recorded pair satisfies funall = objective value obtained at xall (plus the non-negative penalty under 'Penalize'), the first row being the initial population.",
      ["histories", "configurations", "inputs"],
      "methods, verbosity fractions, bounds (not only the symmetric default), early termination at any iteration, serial and parallel execution",
      "The tests read xall only to check bounds on one symmetric box; funall, verbosity and the pairing of the two are never checked.",
      [DE, PSO, NA, CMA, VD, MC, HM], [("recording block in every main loop", "main loop of every method"), ("unnormalize/unstandardize", NA)],
      observe=["xall/funall in result and callback state", "objective calls"]),
    P("C07", "Callbacks see every iteration once, in order, with truthful state",
      "The callback is invoked exactly once after every iteration, the initial one included, with state.nit = 1, 2, 3, ..., nfev equal to the evaluations made so far, x and fun equal to what the run would return if it stopped there, and xall/funall holding exactly the iterations completed so far; its first argument is the current population (for a sampler, the current sample); the last invocation agrees with the returned result, and for DE, PSO, CPSO, NA and the samplers fun never increases. "
      "State objects given to the callback are not changed afterwards by the run.",
      ["histories", "configurations", "schedules"],
      "methods, options, termination reasons, backends and schedules",
      "The callback tests only count invocations for one random maxiter; the state's content is never looked at.",
      OPT + [MC, HM], [("callback blocks", "main loop of every method")],
      observe=["callback arguments", "return value"]),
    P("C08", "Runs end within maxiter iterations and report the true reason",
      "An optimizer performs at most maxiter iterations (maxiter=1 included), and stops at the first iteration (for DE, PSO, CPSO and NA: after the initial one) whose best value (best so far; of the current iteration for CMA-ES and VD-CMA) is at or below ftol. It then reports status 0 if the best solution (the mean of the search distribution for CMA-ES and VD-CMA) moved by no more than xtol, 1 otherwise, except that CMA-ES and VD-CMA report -1 at iteration maxiter. "
      "Status -1 is reported only when nit equals maxiter, any other negative status only by CMA-ES or VD-CMA and only when the criterion it names is met (steps too small to matter, condition number above 1e14, best values equal over the last 10+30*ndim/popsize iterations, spread grown a thousandfold, values within 1e-12 of each other); success is true exactly when status >= 0 and message is the one documented for the status. A sampler generates exactly maxiter samples.",
      ["histories", "configurations", "inputs", "schedules"],
      "objectives reaching ftol at any iteration and at any position in the population, tolerances, maxiter, update modes, backends",
      "The reference runs all use one function and maxiter=128 with tight tolerances; status, success, message and nit are never asserted.",
      OPT + [MC, HM], [("status in selection_sync/selection_async", C), ("converge()", CMA), ("while loops", "main loop of every method")],
      observe=["status/success/message/nit", "objective calls"]),
    P("C09", "Constrained runs never evaluate or report points outside the bounds",
      "With DE 'Random', PSO/CPSO 'Shrink' or CMA-ES/VD-CMA 'Penalize', and always with NA, every point handed to the objective and every point in x and xall lies within the bounds up to rounding error, for x0 within the bounds or none; samplers with 'Reject' never record or evaluate as a sample a point outside the bounds, and still move. "
      "Initial populations and samples drawn by the library lie within the bounds whatever the constraints option.",
      ["histories", "inputs", "configurations"],
      "random draws, bounds of any scale, asymmetry and sign or with zero width (where supported), optima on or beyond the boundary, long runs, both update modes",
      "The tests check xall for one symmetric 2-D box with an interior optimum, never single-dimension, corner-optimum, long or rescaled cases, and no sampler constraint.",
      [DEC, DE, PSOC, PSO, CMAC, CMA, VD, NA, SC, MC, HM, C], [("Random/Shrink/Penalize", "optimize/*/_constraints.py"), ("in_search_space", SC), ("lhs", C)],
      observe=["objective calls", "x and xall"]),
    P("C10", "Failures surface unchanged and leave nothing behind",
      "An exception raised by the objective or the callback, an interrupt or allocation failure at any point of a run, or the death of a worker process always ends the call with that exception (never with a result, a substituted value or a retry); with MPI, on the rank where it happened. No further evaluation is handed to a worker after it has reached the caller. "
      "However a call ends, its worker pool has been shut down, and the next call behaves as if the failed one had never happened.",
      ["fault_sequences", "crash_points", "schedules"],
      "fault kind, the evaluation/iteration/line at which it strikes, backend, worker count and schedule",
      "No test injects any failure.",
      OPT + [MC, HM], [("with Parallel(...)", C), ("plain propagation", "main loop of every method")],
      observe=["outcome of the call", "pool start/terminate", "objective calls", "result of a following call"]),
    P("C11", "Calls leave their inputs alone and do not depend on history",
      "No call modifies the bounds, x0, args, options or option arrays (such as stepsize) it was given, and nothing it returns shares memory with them; array-likes (lists, tuples, integer arrays) give the same run as the equal float array. "
      "A seeded call returns the same result whatever calls, completed or failed, were made before it in the process.",
      ["inputs", "histories", "fault_sequences"],
      "call sequences, input container kinds, methods, failures in between",
      "Every test makes fresh inputs, uses them once, and never looks at them again; no test passes x0 to DE, PSO, CPSO or NA, nor an array stepsize.",
      OPT + [MC, HM], [("copying of x0", DE), ("stepsize scaling", MC)],
      observe=["inputs after the call", "return values over a sequence of calls"]),
    P("C12", "Concurrent calls in one process do not interfere",
      "Optimizations and samplings running at the same time in different threads of one process, even with shared option, bounds or x0 objects, or with one call made by the objective or callback of another, each behave as if they ran alone: same result, same callback sequence, own evaluation counts, own worker pool.",
      ["schedules", "configurations"],
      "pairs and triples of calls, preempted between any two lines of library code",
      "No test runs two calls concurrently.",
      OPT + [MC, HM], [("all run state is local to the call", "every method")],
      observe=["return values and callback sequences of concurrent calls"]),
    P("C13", "Failed evaluations never win and never derail a run",
      "When some evaluations return NaN or +inf, DE, PSO, CPSO and NA still return the smallest real value obtained and its point, CMA-ES and VD-CMA the smallest real value of the last iteration, and the samplers never accept a sample whose value is NaN or +inf (given a finite start). "
      "Whatever the values returned, every candidate an optimizer or MCMC hands to the objective has finite coordinates (until an unbounded search overflows the floating-point range), and later values are compared with real values only, so one failed evaluation does not stop later improvements from being taken.",
      ["fault_sequences", "histories", "inputs"],
      "which evaluations fail (first generation included), how many, and how; methods, constraints and update modes",
      "No test has an evaluation fail.",
      [C, DE, PSO, NA, CMA, CMAC, VD, MC, HM], [("comparisons in selection", C), ("acceptance test", MC), ("percentiles of fitness", CMAC)],
      observe=["objective calls", "return value", "chain"]),
    P("C14", "A sampler's output is a genuine Metropolis chain record",
      "The chain starts at x0 (or at a point drawn within the bounds), and each further sample is either a proposal evaluated at that step, recorded with its value, or an exact copy of the previous sample and value; with MCMC consecutive samples differ only within one block of max(1, int(perc*ndim)) consecutive coordinates, the blocks being visited cyclically. "
      "MCMC proposals add to each coordinate of the block an independent normal draw of standard deviation stepsize times half the box width and are accepted with probability min(1, exp(decrease of the value)); HMC proposals end a leap-frog trajectory started with standard normal momentum and are accepted with probability min(1, exp(-increase of the total energy)). accept_ratio is the fraction of accepted samples, nit is maxiter, and with constraints='Reject' exactly the proposals outside the bounds are excluded outright.",
      ["histories", "inputs", "configurations"],
      "targets, step sizes, perc, dimensions, constraints, chain lengths",
      "The two sampler tests compare the best sample with a stored vector.",
      [MC, HM, SC], [("accept/reject copy", MC), ("leap-frog and accept", HM), ("in_search_space", SC)],
      observe=["xall/funall/accept_ratio", "objective calls"]),
    P("C15", "The samplers leave the target distribution exp(-fun) invariant",
      "If the initial sample is drawn from the density proportional to exp(-fun) (restricted to the bounds with constraints='Reject'), every later sample of MCMC and of HMC, with a numerical or a user-supplied gradient, has that same distribution, for any step size, perc and number of leap-frog steps.",
      ["histories", "configurations"],
      "random draws of whole ensembles of chains; step sizes, perc, nleap, targets, gradients",
      "One seeded chain cannot show a distribution; a user-supplied gradient and constraints are never tested.",
      [MC, HM, SC], [("Metropolis acceptance", MC), ("leap-frog integrator", HM)],
      observe=["ensembles of chains"]),
    P("C16", "DE trial vectors and replacements follow the documented strategy",
      "Every DE trial is, coordinate by coordinate, either the target's value or that of a mutant built as the chosen strategy prescribes: differences, scaled by the mutation constant, of distinct population members other than the target, all equally likely, added to such a member (rand*) or to the current best (best*). One random coordinate always comes from the mutant, each other one independently with probability recombination; with 'Random', mutant coordinates outside the bounds are redrawn independently and uniformly within them. "
      "A member is replaced by its trial when the trial is better, kept when it is worse, and 'immediate' updating uses the population and best as updated so far in the generation while 'deferred' uses those of the previous generation.",
      ["histories", "configurations", "schedules"],
      "strategies, mutation/recombination values, update modes, population sizes, objectives with ties, backends",
      "Stored end points for seven option sets with recombination 0.1 and mutation 0.5 on one 2-D function.",
      [DE, DES, C], [("strategies", DES), ("recombination mask", DE), ("selection", C)],
      observe=["objective calls (trials) and callback populations"]),
    P("C17", "PSO/CPSO particles move by the documented velocity rule",
      "Each particle's displacement is inertia times its previous displacement plus attractions to its personal best and to the swarm's best with independent per-coordinate weights in [0, cognitivity] and [0, sociability]; uniformly distributed; with 'Shrink' the whole displacement is scaled by one factor in [0, 1], below 1 only if needed to stay inside. The best is the one as updated so far in the iteration ('immediate') or of the previous iteration ('deferred'). "
      "Only CPSO with a non-zero competitivity relocates particles, only when the swarm has collapsed around its best (radius below the threshold of the cited reference): the worst ones, never the one holding the swarm's best value, to independent uniform points of the box, at rest and with their personal best forgotten.",
      ["histories", "configurations", "schedules"],
      "coefficients incl. 0 and extreme values, update modes, constraints, objectives, population sizes",
      "Stored end points for eight option sets of one 2-D function.",
      [PSO, PSO0, PSOC, C], [("mutation()", PSO), ("restart()", PSO), ("Shrink", PSOC)],
      observe=["objective calls and callback populations"]),
    P("C18", "NA resamples inside the Voronoi cells of the best models so far",
      "Each candidate NA generates lies within the bounds and, in coordinates normalised by the bounds, at least as close to one of the max(1, int(nrperc*popsize)) best models found so far as to any other model found so far; the i-th candidate belongs to the (i mod nr)-th best. It is drawn by a walk along the axes from that model, uniformly between the walls of the cell met on each axis. Dimensions of zero width keep their fixed value and do not affect the distances.",
      ["histories", "configurations", "inputs"],
      "random draws, dimensions, bounds of any scale, nrperc, population sizes, objectives with ties, backends",
      "One stored end point for one option set.",
      [NA], [("mutation(): Gibbs walk in the Voronoi cell", NA)],
      observe=["objective calls"]),
    P("C19", "Searches depend on value ranking only and on the box only affinely",
      "Replacing the objective by a strictly increasing transformation of it leaves the sequence of points evaluated by DE, PSO, CPSO, NA, CMA-ES and VD-CMA (without 'Penalize') unchanged, up to termination. "
      "Scaling each coordinate's bounds, x0 and the objective's argument by a power of two scales that coordinate of every evaluated point by exactly that factor, for optimizers and MCMC.",
      ["histories", "inputs", "configurations"],
      "objectives, monotone transformations, scales, methods and options, backends",
      "Needs two related executions; the tests look at single ones on one fixed box.",
      [C, DE, PSO, NA, CMA, VD, MC], [("comparison-based selection, argsort", C), ("standardize/unstandardize", CMA)],
      observe=["objective calls"]),
    P("C20", "Runs start where they were told to, or stratified over the box",
      "DE, PSO, CPSO and NA evaluate first exactly the given x0 population in order, or, without x0, a Latin hypercube sample of the box: splitting each coordinate's range in popsize equal intervals, every interval holds exactly one candidate, the intervals being paired at random across coordinates. "
      "CMA-ES and VD-CMA draw their first population around x0 (without x0, around a random point of the box) with, for CMA-ES, independent normal draws of standard deviation sigma times half the box width per coordinate; samplers start at x0 or at a random point within the bounds.",
      ["inputs", "configurations", "histories"],
      "random draws, population sizes, dimensions, bounds, x0 containers, backends",
      "Only CMA-ES and VD-CMA are tested with an x0; the distribution of the first population is never looked at.",
      [C, DE, PSO, NA, CMA, VD, MC, HM], [("lhs()", C), ("standardize(x0)", CMA)],
      observe=["objective calls of the first iteration"]),
    P("C21", "CMA-ES and VD-CMA sample the distributions their updates prescribe",
      "In every generation the CMA-ES candidates, in coordinates standardised by the box, are independent draws from the normal distribution whose mean, step size and covariance follow from all earlier candidates and their ranking by the update equations of Hansen's tutorial (weighted recombination of the best int(muperc*popsize), cumulation, rank-one and rank-mu covariance update, cumulative step-size control). VD-CMA's candidates are centred on the weighted recombination of the best int(muperc*popsize) of the previous generation, the first two mirrored around it along its last step; for more than five dimensions they follow the normal law whose covariance D(I+vv')D and step size result from the natural-gradient and two-point step-size updates of Akimoto et al. (2014).",
      ["histories", "configurations"],
      "objectives, dimensions, population sizes, muperc, sigma, number of generations, backends",
      "Four stored end points in two dimensions with popsize 8 and muperc 0.5.",
      [CMA, VD], [("main loop", CMA), ("main loop", VD)],
      observe=["objective calls"]),
    P("C22", "Benchmark functions have their documented values and minima",
      "Each factory function returns the mathematical function's value for any 1-D array-like, so that its global minimum value is attained at the documented minimiser and nowhere undercut.",
      ["inputs"],
      "all points and dimensions",
      "One point per function is tested.",
      ["stochopy/factory/benchmark.py"], [("closed formulas", "stochopy/factory/benchmark.py")],
      observe=["return value"]),
    P("C23", "Invalid requests are rejected before anything happens",
      "A call with an argument outside its documented domain (population below 2 or without a parent, wrong shape of bounds, x0 or stepsize, rates out of range or NaN, non-callable fun, gradient or callback, unknown updating, option name or, when the whole population is updated at once, backend) raises TypeError or ValueError before the objective, gradient or callback is called and before workers are started, on every MPI rank alike and without any rank waiting; its inputs are left alone, and calls running at the same time or made afterwards behave as if it had never been made.",
      ["fault_sequences", "histories", "configurations"],
      "which requests of a history are invalid and how, made before, between, during or inside valid calls, in one process or on every rank",
      "No test passes an invalid option.",
      OPT + [MC, HM], [("argument checks", "minimize()/sample() of every method"), ("unknown backends", C)],
      observe=["exception", "absence of objective calls, callbacks and workers", "the other calls' results"]),
    P("C24", "Result objects give the same data as attributes and as dictionary items",
      "Every field of a result can be read, set and deleted equivalently as attribute and as dictionary item, and its printed form lists every field except xall and funall.",
      ["inputs"],
      "all field names and values",
      "No test uses results other than by attribute.",
      ["stochopy/_common.py"], [("BaseResult", "stochopy/_common.py")],
      observe=["result object"]),
    P("C25", "Every way of making the same call, watched or not, runs the same search",
      "A run evaluates the same points in the same order with the same values and returns the same result whether it is started through minimize()/sample() or the method's own function, with arguments by name or by position, with options left out or given their documented default values (method 'de' or 'mcmc', options None, and each method's defaults) or as numpy instead of python numbers, with workers 0 or 1 and either joblib backend name, with an integer seed or with numpy's generator seeded by it just before the call, and whether or not it is watched by a callback or recorded with return_all at any verbosity.",
      ["inputs", "configurations", "histories"],
      "methods, options, entry points, seeds and generator states, presence of callback, return_all and verbosity",
      "Every test uses minimize()/sample() with the same explicit options, return_all and no callback.",
      ["stochopy/optimize/_helpers.py", "stochopy/sample/_helpers.py"] + OPT + [MC, HM],
      [("entry points", "stochopy/optimize/_helpers.py"), ("defaults", "minimize()/sample() of every method"), ("recording branches", "main loop of every method")],
      observe=["objective calls", "callback arguments", "return value"]),
    P("C26", "Searches reach the minimum, and chains their target, despite early failures",
      "With default coefficients, popsize 20, 150 iterations and no early stop (ftol=-1e300, xtol=0), on a convex quadratic of one to four variables (rotated or not, curvatures within a factor of 25 of each other after scaling the box to the unit cube) whose minimum lies within the central part of any box, at least eight of twelve differently seeded runs of every optimizer end within 1 % of the box's half width of the minimum in every coordinate, whatever the start, updating mode, DE strategy, constraints, number of workers or ranks, and also if a fifth to half of the evaluations of the first 20 iterations, or all of a shorter period, fail with NaN or inf (exceptions: NA in one dimension with failures, where failed models shield the minimum; best1bin updated at once in four dimensions). DE, PSO, CPSO and CMA-ES with constraints reach a minimum on the boundary of the box just as well if the quadratic is not rotated. "
      "MCMC and HMC chains on a normal target of standard deviation 0.1 to 0.3 half widths, started anywhere in the box, end within eight standard deviations of its centre after 900 (MCMC, steps of half to one standard deviation) or 80 samples (HMC, trajectories of about a radian or a half more), also if evaluations fail during the first quarter of the chain.",
      ["histories", "inputs", "configurations", "fault_sequences"],
      "failure times and rates, boxes, starts, objectives, seeds, methods, modes and backends",
      "The stored end points of the reference runs fix one trajectory per method on one function without any failure.",
      OPT + [MC, HM], [("main loop", "main loop of every method"), ("selection", C)],
      observe=["return value"]),
]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
