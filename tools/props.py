"""The properties, and what their checks claim. Generates properties.jsonl and
MANIFEST.json: python3 tools/props.py (run from /verif)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, technique=technique, note=note, p=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None))))


IN, CF, HI, FA, SC, PR = "inputs", "configurations", "histories", "fault_sequences", "schedules", "programs"
INTEG = ["erk.hpp", "irk.hpp"]
ALLI = ["erk.hpp", "irk.hpp", "multistep.hpp"]
ASAN = " Runs built with AddressSanitizer and UndefinedBehaviorSanitizer; a report fails the check too."

prop("C01", "A successful integration returns a well-formed trajectory over [t0, t1]",
     "Whatever the method, problem, interval, tolerances and step-size mode, an explicit or implicit Runge-Kutta integration that reports success returns times that start exactly at t0, increase strictly and end at t1, and the first state is exactly y0. Every reported row has its state, stages, error estimate and error norm, of matching sizes and all finite, and the first row's error data are zero. A run that does not succeed still returns such a trajectory, ending early.",
     [IN, CF], "all problems, initial values, intervals (long, tiny, far from 0, negative), methods, tolerances and step limits",
     "the tests look at the final value of a few fixed runs; nothing checks the sequence of rows, or intervals that the step does not divide",
     INTEG + ["output.hpp"], [("main loop, last-step truncation, storing of rows", "erk.hpp erk_guts; irk.hpp irk_guts")],
     ["the returned rk_output"], "runtime monitoring: trajectory invariants over random integrations, under ASan+UBSan",
     "Held on the executions explored (random problems x all 28 methods x options)." + ASAN)

prop("C02", "Every accepted step solves the Runge-Kutta equations of the named method",
     "For every method and problem, each step of a returned trajectory is the step that the published Runge-Kutta tableau of that method prescribes from the previous row: the reported stages satisfy the stage equations and the new state is the weighted sum of the stages (to rounding for explicit methods, to the nonlinear solver's tolerance for implicit ones). Every method that has coefficients can integrate.",
     [IN, CF], "all methods, steps, problems, tolerances",
     "the tests check convergence orders of a handful of methods on a few problems, which wrong coefficients at a non-leading order, or in rarely used methods, survive",
     ["erk.cpp", "irk.cpp"] + INTEG, [("Butcher tableaux", "erk.cpp, irk.cpp get_coefficients"), ("stage and update formulas", "erk.hpp erk_guts; irk.hpp newton_solve_stages, irk_guts")],
     ["rows, states and stages in the returned rk_output, and the recorded right-hand side evaluations"],
     "runtime monitoring: step-by-step oracle from independently derived tableaux",
     "Reference tableaux come from literature formulas and collocation conditions evaluated in exact/high-precision arithmetic (tools/gen_ref.py), not from the code. LOBATTO_IIIA_43/127 cannot integrate at all: known findings." + ASAN)

prop("C03", "Every method converges at the order it declares",
     "Every method's main and embedded formulas satisfy the Runge-Kutta order conditions up to the orders it declares, and its integrations with step h have a global error that shrinks like h to that order. Multistep methods converge at the order that was asked for.",
     [IN, CF], "all methods x smooth problems x step sizes", "test_orders covers some methods and prints slopes with a loose criterion; embedded formulas are not tested",
     ["erk.cpp", "irk.cpp", "multistep.hpp"] + INTEG, [("coefficients and declared orders", "get_coefficients in erk.cpp and irk.cpp"), ("multistep formulas and their start-up", "multistep.hpp")],
     ["coefficients returned by get_coefficients; final states of constant-step integrations"],
     "runtime monitoring: rooted-tree order conditions and observed convergence slopes",
     "Order conditions are evaluated on the coefficients the library returns; slopes on integrations of smooth problems with exact solutions." + ASAN)

prop("C04", "Implicit methods never amplify a stable mode, whatever the step size",
     "On linear problems each step multiplies every mode by the stability function of the method. Implicit methods never let a decaying or oscillating mode grow however large the step is; Radau IIA, Lobatto IIIC and implicit Euler damp infinitely stiff modes, and Gauss methods conserve the norm of purely oscillating ones. The linear stage equations are always solved.",
     [IN, CF], "all z = h*lambda in the left half plane up to 1e8, all implicit methods, all systems similar to them", "the tests integrate a few stiff problems at one stiffness",
     ["irk.cpp", "irk.hpp", "erk.hpp"], [("coefficients", "irk.cpp get_coefficients"), ("stage solve and update", "irk.hpp newton_solve_stages, irk_guts")],
     ["successive rows of constant-step integrations of linear systems"], "runtime monitoring: amplification factor of each observed step against the stability function",
     "Stability functions are computed from the reference tableaux." + ASAN)

prop("C05", "Steps are accepted exactly if the error estimate meets the tolerance",
     "With adaptive steps, the reported error estimate of a step is that of the method's embedded formula and the reported error norm is its weighted norm with abs_tol + rel_tol*|y|; a step is taken exactly if the norm is within 1, and a rejected step is retried from the same state with a smaller step. The next step size follows the estimated error: larger after small errors, smaller after large ones, never by more than a bounded factor.",
     [IN, CF], "all adaptive methods, problems, tolerances", "the tests only look at the result of adaptive runs; a wrong norm, a skipped rejection or a broken controller still integrates a smooth problem",
     INTEG + ["irk.cpp", "erk.cpp"], [("error norm, acceptance and step-size formula", "erk.hpp erk_guts; irk.hpp irk_guts")],
     ["err, err_est and rows in rk_output; the log of right-hand side evaluations, which shows every attempt"],
     "runtime monitoring: recorded attempts judged by an independent controller model",
     "The controller oracle follows the documented formula with its safety factor and clipping." + ASAN)

prop("C06", "Adaptive integration is as accurate as the tolerances ask for",
     "For every adaptive method and problem, the computed solution stays within a moderate multiple of abs_tol + rel_tol*|y| (times the problem's own error amplification) of the exact solution at every reported time, and succeeds. This includes the overloads that use default options, and stiff problems with the stiffly accurate implicit methods.",
     [IN, CF], "problems with known exact solution (linear, oscillating, logistic, time-dependent, stiff) x tolerances 1e-10..1e-2", "the tests compare a few runs at one tolerance",
     INTEG, [("error control", "erk.hpp erk_guts; irk.hpp irk_guts"), ("defaults", "default_solver_options in erk.cpp, irk.cpp")],
     ["rows of the returned trajectory"], "runtime monitoring: exact solutions as oracle at every reported row",
     "The multiple depends on the number of steps and on the conditioning of the problem; Gauss methods are not required to be accurate on stiff problems." + ASAN)

prop("C07", "Step sizes honour the initial dt, max_dt, constant mode and the interval",
     "No step, and not even an attempted one, is longer than max_dt, and none reaches past the end of the interval. The first step attempted is the given dt (cut to max_dt and the interval), and with constant steps, or a method without embedded formula, all steps equal it except a shorter last one.",
     [IN, CF], "all methods, dt, max_dt (also larger than dt, smaller than dt, beyond the interval), intervals", "the tests run with steps that divide the interval and no max_dt",
     INTEG + ["options.hpp"], [("initial dt, max_dt and last-step logic", "erk.hpp odeint, erk_guts; irk.hpp odeint, irk_guts")],
     ["times in rk_output; times at which the right-hand side was evaluated"], "runtime monitoring: step-size invariants on rows and on recorded evaluation times", "Held on the executions explored." + ASAN)

prop("C08", "The returned statistics agree with what actually happened",
     "In everything an integration returns, the number of right-hand side and Jacobi matrix evaluations equals the calls the user's functor really received, attempts equal accepted steps plus rejections for each reason, the fraction of accepted attempts is their ratio, and the elapsed time is that of the call. This holds for all outcomes, also early and unsuccessful ones.",
     [IN, CF, FA], "all methods, outcomes (success, step limit, rejection, failed nonlinear solves, non-finite values)", "no test reads the counters",
     INTEG, [("counters", "rk_output::counters and its updates in erk.hpp, irk.hpp")], ["counters in rk_output against calls recorded inside the functor"],
     "runtime monitoring: conservation laws between returned counters and recorded calls", "The wall-clock time is only bounded from both sides (it must not exceed the measured duration of the call, nor miss deliberate delays in the functor)." + ASAN)

prop("C09", "max_steps bounds the number of steps and cuts the same trajectory",
     "With a step limit an integration takes at most that many steps, and what it returns is exactly the beginning of the trajectory that the unlimited integration computes. It reports the step-limit status exactly if the end was not reached within the limit, and a negative limit means none.",
     [IN, CF], "all methods, problems, limits from 0 to beyond the need", "no test sets a limit",
     INTEG + ["options.hpp", "enums.hpp"], [("step counter test", "erk.hpp erk_guts; irk.hpp irk_guts")], ["status and rows in rk_output"],
     "runtime monitoring: limited runs against the unlimited run", "Held on the executions explored." + ASAN)

prop("C10", "Output options decide what is reported and never what is computed",
     "Storing in vectors, writing to a stream and the output interval only select which rows are reported, and where: with interval k the rows are every k-th step, and stored and written rows are the same. Status, step sequence, counters and the work done are identical for every choice, and nothing is stored or written unless asked for.",
     [CF, IN, HI], "all combinations of output modes and intervals, option setters in any order, all methods", "the tests always use the default output",
     INTEG + ["options.hpp"], [("output_options", "options.hpp"), ("row output", "erk.hpp erk_guts; irk.hpp irk_guts")], ["rk_output, and the bytes on the output stream"],
     "runtime monitoring: differential runs with different output options", "Held on the executions explored." + ASAN)

prop("C11", "The functor is asked only about the interval, and used in place",
     "The Runge-Kutta integrators evaluate the right-hand side and Jacobi matrix only at times within [t0, t1] (Adams-Bashforth and BDF: only within the grid they return), with finite vectors of the problem's size. They use the caller's functor object itself rather than a copy (BDF excepted), and never modify the caller's initial vector.",
     [IN, CF], "all methods, problems, intervals, step sizes", "no test watches the evaluation points",
     ALLI, [("evaluation times t + c*dt", "erk.hpp, irk.hpp construct_R, multistep.hpp")], ["arguments recorded inside the functor"],
     "runtime monitoring: recorded evaluation points and object identity", "Held on the executions explored; the functor counts its copies in part of the runs." + ASAN)

prop("C12", "Failures are reported, never turned into a successful wrong result",
     "If the right-hand side or Jacobi matrix returns non-finite values, the stage equations cannot be solved, the solution blows up, or the functor throws, the integration ends with a truthful status or passes on the exception; it never reports success with non-finite or wrong rows, never loops forever and never aborts. Adaptive integrators recover from faults that a smaller step avoids, and then are as accurate as without them.",
     [FA, IN, CF], "all methods; NaN and infinity in any component at any evaluation, transient or permanent, beyond a cliff, from a blow-up; exceptions at any call; singular stage systems; too few Newton iterations", "no test injects a fault",
     ALLI + ["newton.hpp"], [("finiteness tests and status codes", "erk.hpp, irk.hpp, multistep.hpp, newton.hpp")], ["status, rows and exceptions seen by the caller"],
     "runtime monitoring with fault injection: truthfulness oracle on status and rows", "Faults are injected at every kind of call; termination is judged by CPU time and by a budget of evaluations." + ASAN)

prop("C13", "Integrations do not influence each other",
     "Integrations that run repeatedly, nested (a right-hand side that integrates itself) or concurrently in several threads each return bit for bit what the same integration returns alone, for all integrators and nonlinear solvers. No two concurrent calls race on shared data.",
     [SC, HI], "all orders, nestings and thread interleavings of calls on separate functors and options", "the tests run one integration at a time",
     ALLI + ["newton.hpp", "erk.cpp", "irk.cpp"], [("no mutable global state", "all sources")], ["results compared bitwise; ThreadSanitizer"],
     "runtime monitoring: ThreadSanitizer, and bitwise comparison with solo runs", "Schedules are those the OS produced with 2-6 threads and random delays. Concurrent integrations log to separate sinks; writes of several threads to one shared std stream are not considered.")

prop("C14", "No memory error, undefined behaviour or use of uninitialised values",
     "Whatever the valid problem, method, options and outcome, no part of the library accesses memory out of bounds or after its release, executes undefined behaviour, leaks, or lets an uninitialised value decide a branch or reach a returned field.",
     [IN, CF, FA], "all public functions with random valid inputs, including empty systems, failures and exceptions", "the tests run without sanitizers",
     ALLI + ["newton.hpp", "cyclic_buffer.hpp", "erk.cpp", "irk.cpp", "test_equations.hpp"], [("container sizes and initialisation", "all sources")], ["AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck"],
     "sanitizers: ASan + UBSan (with libstdc++ assertions), and valgrind memcheck, under random workloads", "The valgrind workload branches on every byte of what is returned, which exposes uninitialised fields.")

prop("C15", "Every build configuration gives the same results",
     "The library compiles and links without conflicts in every supported configuration: several translation units including all headers, C++11 to C++20, GCC and Clang, any optimisation level, with and without NDEBUG and DEBUG_OUTPUT. Integrations and solvers behave alike in all of them: same status, same solution to rounding, the same work.",
     [PR, CF, IN], "compilers x optimisation levels x macros x language standards, over random jobs", "the tests are built in one configuration",
     ALLI + ["newton.hpp", "rehuel.hpp"], [("asserts and conditional code must not carry effects; headers must be self-contained and inline", "all headers")], ["results per configuration of identical jobs"],
     "runtime monitoring: differential execution of identical jobs across builds", "Rounding differences are allowed for, so problems are well conditioned. Compilers and standard libraries are those in the sandbox.")

prop("C16", "Newton's method: truthful status, accurate roots, options as documented",
     "Newton's method reports success only if its last increment is below dx_delta and the function value is finite, and then returns that last iterate; otherwise it returns the initial guess and a failure status, never using more than maxit iterations. On contractive problems it converges, quadratically if the Jacobi matrix is refreshed, with a frozen one if asked; steps are limited by max_step; preconditioning, timing and printing do not change the root; and a singular or non-finite Jacobi matrix, non-finite values or exceptions never look like success.",
     [IN, CF, FA], "systems of all sizes with known roots, all option combinations, faults at any evaluation", "the tests solve a few systems with default options",
     ["newton.hpp"], [("iteration, step limiting and termination", "newton.hpp newton_iterate_impl")], ["iterates recorded inside the functor; returned root and status"],
     "runtime monitoring: recorded iterates against an independent model of each guarantee", "Convergence is only demanded where it follows from contraction." + ASAN)

prop("C17", "Broyden's method: truthful status, accurate roots, steps within max_step",
     "Broyden's method reports success only if the function value is below the tolerance or the last increment below dx_delta, returns its last iterate and that iterate's residual, and never evaluates more than maxit times or moves further than max_step at once. On contractive problems it converges to the root; non-finite values never look like success, and exceptions reach the caller.",
     [IN, CF, FA], "systems of all sizes with known roots, all options, faults at any evaluation", "one test solves two small systems",
     ["newton.hpp"], [("rank-one update, step limiting and termination", "newton.hpp broyden_iterate")], ["iterates recorded inside the functor; returned root and status"],
     "runtime monitoring: recorded iterates against an independent model of each guarantee", "Convergence is only demanded where it follows from contraction." + ASAN)

prop("C18", "The stage solver's solutions satisfy the stage equations, or it says it failed",
     "The solver of the implicit stage equations returns success only with stages that satisfy these equations to its tolerances, for every method, problem and step, and with either linear-algebra variant and with or without damping. Its counts of evaluations are those really made, the Jacobi matrix it hands out is that of the problem at the start of the step, and singular or non-finite systems and too few iterations are reported as failures.",
     [IN, CF, FA], "all implicit methods, problems, step sizes, iteration limits, refresh intervals, tolerances, variants", "one test calls it on one linear problem",
     ["irk.hpp"], [("simplified Newton iteration on the stages", "irk.hpp newton_solve_stages, construct_R")], ["returned stages inserted in the equations; calls recorded in the functor"],
     "runtime monitoring: residual oracle on the returned stages", "The residual is recomputed from the coefficients and the problem, independent of the code." + ASAN)

prop("C19", "The cyclic buffer behaves as a bounded queue with stable indexing",
     "After any sequence of pushes, pops, writes, copies, assignments, resizes and iterations, a cyclic buffer holds exactly the most recent elements up to its capacity in insertion order; indexing, iterators and size agree with that, and copies are independent.",
     [HI, IN], "all operation sequences, capacities and element types", "test covers one short sequence",
     ["cyclic_buffer.hpp"], [("ring arithmetic", "cyclic_buffer.hpp")], ["observable contents after every operation"],
     "runtime monitoring: model-based testing against a deque", "Element type with counted instances detects lost or duplicated ones." + ASAN)

prop("C20", "Dense output interpolates the computed solution",
     "The weights for intermediate times vanish at the start of a step and equal the method's weights at its end, and states interpolated with them from the returned stages agree with the solution inside every step to the interpolant's order. The coefficients derived from collocation points, and the symbolic expansion behind them, are those of the collocation polynomial for every set of points.",
     [IN, CF], "all methods with interpolants, all theta in and near [0,1], all sets of distinct collocation points", "the tests do not use dense output",
     ["irk.cpp", "erk.cpp", "irk.hpp"], [("interpolation coefficients", "irk.cpp collocation_interpolate_coeffs, expand, project_b; erk.cpp project_b")], ["weights and interpolated states"],
     "runtime monitoring: polynomial-identity and exact-solution oracles", "Held on the executions explored." + ASAN)

prop("C21", "Merging two solutions loses and invents nothing",
     "Merging two consecutive integrations gives the rows of both in order, a total of every counter and of the elapsed time, the accepted fraction of the whole, and a status that is success only if both succeeded and otherwise carries each failure; the inputs are unchanged.",
     [IN, HI], "all pairs and chains of solutions, also empty and failed ones", "no test merges",
     ["irk.cpp"], [("merge_rk_output", "irk.cpp")], ["the merged rk_output"], "runtime monitoring: conservation oracle over merged solutions", "Held on the executions explored." + ASAN)

prop("C22", "Method names, codes, coefficients and defaults agree with each other",
     "Names and codes of methods map one-to-one onto each other, listing contains each name once, looking up something unknown yields no method and changes nothing, in any order and number of lookups. Coefficients exist for every implemented method, are consistent in size, carry that method's name, and the classifications (explicit, diagonally implicit, first-same-as-last, valid) and default options say what the coefficients are.",
     [IN, HI, CF], "all codes and names, known and unknown, all sequences of lookups, mutated coefficients", "the tests use a few known names",
     ["irk.cpp", "erk.cpp", "irk.hpp", "erk.hpp", "enums.hpp", "options.hpp"], [("name maps and get_coefficients", "irk.cpp, erk.cpp, enums.hpp")], ["return values"],
     "runtime monitoring: algebraic-law oracle over random lookup sequences", "Enumerated but unimplemented methods are required to be recognised as not valid." + ASAN)

prop("C23", "Adams-Bashforth returns the multistep solution on its grid",
     "The Adams-Bashforth integrator of every order returns a uniform grid from t0 that covers t1, each row beyond the start-up follows from the preceding rows by the Adams-Bashforth formula of the order asked for, and the start-up rows are accurate to that order.",
     [IN, CF], "orders 1 to 5, step sizes, intervals, problems", "test_multistep runs one problem",
     ["multistep.hpp", "cyclic_buffer.hpp"], [("adams_bashforth and its history", "multistep.hpp")], ["rows of the returned solution and recorded evaluations"],
     "runtime monitoring: step-by-step oracle from the published formulas", "Held on the executions explored." + ASAN)

prop("C24", "BDF returns solutions of the backward differentiation formulas",
     "The BDF integrator of every order returns a uniform grid from t0 that covers t1, each row beyond the start-up satisfies the backward differentiation formula of the order asked for to the solver's tolerance, and the start-up rows are accurate to that order. Stiff decaying problems stay bounded at any step size for orders 1 and 2, and unsolvable steps are reported in the status.",
     [IN, CF, FA], "orders 1 to 6, step sizes, intervals, problems, solver options", "test_multistep runs one problem",
     ["multistep.hpp", "newton.hpp", "cyclic_buffer.hpp"], [("bdf and its history", "multistep.hpp")], ["rows of the returned solution"],
     "runtime monitoring: step-by-step residual oracle from the published formulas", "Held on the executions explored." + ASAN)

prop("C25", "The bundled test equations are consistent with their definitions",
     "For every bundled test equation, parameter and state, the Jacobi matrix is the derivative of the right-hand side, the exact solution (where given) solves the equation, the right-hand side is that of the model it names, and so are the energies (where given). None depends on the time or on earlier calls.",
     [IN], "all states, times and parameters of every bundled equation", "the tests only integrate a few of them",
     ["test_equations.hpp"], [("fun, jac, sol of each functor", "test_equations.hpp")], ["values returned by the functors"],
     "runtime monitoring: derivative, conservation and published-form oracles at random states", "Held on the executions explored." + ASAN)

prop("C26", "Solutions transform the way the equations do",
     "Integrating a transformed problem gives the transformed solution: shifted in time, with components reordered, or with the problem doubled into two independent copies; or in other units of time and state; a problem without explicit time dependence does not care about t0. With constant steps this includes rotated coordinates, unrelated problems side by side, time as an extra component, and stopping at a grid point and resuming there. Linear invariants of the right-hand side (sums of components that it leaves unchanged) stay constant along every computed trajectory.",
     [IN, CF], "all methods, problems, shifts, permutations, invariants", "the tests integrate each problem once in one form",
     ALLI, [("time-stepping formulas are covariant", "erk.hpp, irk.hpp, multistep.hpp")], ["rows of related integrations"],
     "runtime monitoring: metamorphic relations between related runs", "Compared to rounding for fixed steps and to the tolerances for adaptive ones." + ASAN)

prop("C27", "The stability-region program writes the method's stability function",
     "For every explicit and implicit method the stability-region program writes complete tables, over its grid in the complex plane and along its real values, of the modulus of the stability function of that method and of its embedded formula, also where a method has no embedded formula and at poles. An unknown or missing method ends in an error message and status, with no crash.",
     [IN, CF], "all methods, known and unknown names, every point of the grid", "no test runs it",
     ["stability_region/main.cpp", "irk.cpp", "erk.cpp"], [("stability function and grid", "stability_region/main.cpp")], ["files, messages and exit status of the program"],
     "runtime monitoring: written values against an independent evaluation of the stability function", "Run as a program built from the tree with ASan and UBSan; all methods and points are enumerated.")

prop("C28", "The example program integrates what its options say",
     "The example program integrates the chosen equation with the chosen parameters, method, interval, tolerances and step, in whatever order the options come, and writes an increasing table of every step up to the final time to the output file, which agrees with an independently integrated solution. Unknown options, equations and methods, missing values and unconfirmed requests end in an error message and a failure exit status without integrating anything.",
     [IN, CF], "all equations, methods and options of the program", "no test runs it",
     ["examples/example_equations.cpp", "test_equations.hpp"] + INTEG, [("option parsing and dispatch", "examples/example_equations.cpp")], ["output file, messages and exit status of the program"],
     "runtime monitoring: printed trajectories against independent solutions", "Run as a program built from the tree with ASan, UBSan and pattern-initialised automatic variables.")

prop("C29", "Finite-difference Jacobi matrices are accurate, and wrong ones are detected",
     "The finite-difference approximation of a Jacobi matrix agrees with the exact derivative to the order of the difference formula, column by column, and leaves function and point unchanged. The verification accepts every correct Jacobi matrix and rejects one with any single entry wrong, at any scale of the problem.",
     [IN], "functions, points, sizes, step widths, planted errors in any entry", "one test calls it on correct matrices only",
     ["newton.hpp"], [("approx_jacobi_matrix, verify_jacobi_matrix", "newton.hpp")], ["returned matrix and verdict"],
     "runtime monitoring: exact-derivative oracle and planted errors", "Held on the executions explored." + ASAN)


def main():
    from checks import SPECS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in SPECS:
            checks.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                               technique=x["technique"], level="exploration", level_note=x["note"]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 -m py_compile run_check.py checks.py", checks=checks, not_applicable=na,
             notes="No hooks: all monitors observe the library at its public interface (functor callbacks, returned data, streams, exit status).")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")


main()
