"""What each property's check runs, and what makes one of its cases count."""
import glob, os, re


def run_c13(run, spec):
    import run_check as rc
    exe = run.build(flavours=("asan", "tsan"))
    run.run_shards(exe["asan"], "asan")
    run.run_shards(exe["tsan"], "tsan", extra="threads", nshards=4, keyprefix="")


def run_c14(run, spec):
    exe = run.build(flavours=("asan", "vg"))
    run.run_shards(exe["asan"], "asan")
    run.env["OPENBLAS_CORETYPE"] = "Haswell"   # valgrind does not know newer vector instructions
    run.run_shards(exe["vg"], "vg", extra="valgrind", caselimit=300,
                   prefix=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=full", "--errors-for-leak-kinds=definite"])


def build_program(run, sources, name, extra=()):
    """A program of the repository, with sanitizers."""
    jobs = run.objects("asan", sources + run.lib_sources(), extra)
    run.compile_all(jobs)
    return run.link("asan", [o for _, o in jobs], os.path.join(run.tmp, name))


C15_FLAVOURS = ("asan", "o0", "plain", "ndebug", "debugout", "std20", "clang")


def run_c15(run, spec):
    """The same jobs in every configuration, and everything in two translation units."""
    import json
    import run_check as rc
    from concurrent.futures import ThreadPoolExecutor
    tu = os.path.join(rc.VERIF, "harness", "tu")
    h = os.path.join(rc.VERIF, "harness", "C15.cpp")
    jobs, per = [], {}
    for f in C15_FLAVOURS:
        for s in [h] + run.lib_sources():
            (argv, o), = run.objects(f, [s])
            jobs.append((f, argv)); per.setdefault(f, []).append(o)
    for f in ("plain", "clang"):
        for s in ("a.cpp", "b.cpp"):
            (argv, o), = run.objects(f, [os.path.join(tu, s)])
            jobs.append((f, argv)); per.setdefault("tu-" + f, []).append(o)
    heads = ["rehuel.hpp", "irk.hpp", "erk.hpp", "multistep.hpp", "newton.hpp", "cyclic_buffer.hpp", "my_timer.hpp", "enums.hpp"]
    for k, x in enumerate(heads):
        src = os.path.join(run.tmp, "alone%d.cpp" % k)
        open(src, "w").write('#include "%s"\n#include "%s"\n' % (x, x))
        for cc, std in (("g++", "c++11"), ("clang++", "c++20")):
            jobs.append(("header " + x, [cc, "-std=" + std, "-w", "-fsyntax-only", "-I" + rc.REPO, src]))
    jobs.sort(key=lambda j: 0 if h in j[1] else 1)
    with ThreadPoolExecutor(rc.NPROC) as ex:
        res = list(ex.map(lambda j: run.cmd(j[1]), jobs))
    failed = {}
    for (f, argv), (code, out) in zip(jobs, res):
        if code:
            failed.setdefault(f, " ".join(argv) + "\n" + out[-1500:])
    if all(f in failed for f in C15_FLAVOURS):
        raise rc.CheckError("compilation failed: " + failed["plain"])
    for f, d in failed.items():
        run.add_violation("compile/" + f.replace(" ", "-"), d)
    run.counts["headers-alone"] = len(heads) * 2
    # Two translation units.
    for f in ("plain", "clang"):
        if f in failed:
            continue
        lib = [o for o in per[f] if "C15" not in os.path.basename(o)]
        try:
            exe = run.link(f, per["tu-" + f] + lib, os.path.join(run.tmp, "tu-" + f))
        except rc.CheckError as e:
            run.add_violation("link/" + f, str(e))
            continue
        code, out = run.cmd([exe], timeout=120)
        if code:
            run.add_violation("two-translation-units/" + f, "exit status %d: %s" % (code, out[-1500:]))
        run.counts["linked-programs"] = run.counts.get("linked-programs", 0) + 1
    # The jobs.
    recs = {}
    for f in C15_FLAVOURS:
        if f in failed:
            continue
        try:
            exe = run.link(f, per[f], os.path.join(run.tmp, "harness-" + f))
        except rc.CheckError as e:
            run.add_violation("link/" + f, str(e))
            continue
        run.run_shards(exe, f, keyprefix="%s/" % f)
        recs[f] = {}
        for p in glob.glob(os.path.join(run.tmp, "out-%s-*.rec" % f)):
            for line in open(p):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                recs[f][d["id"]] = d
    base = "asan" if "asan" in recs else sorted(recs)[0]
    for f in recs:
        if f == base:
            continue
        run.counts["configurations"] = run.counts.get("configurations", 1) + 1
        for i, a in recs[base].items():
            b = recs[f].get(i)
            if b is None:
                continue  # it crashed; that is reported
            run.counts["jobs-compared"] = run.counts.get("jobs-compared", 0) + 1
            why = compare_records(a, b, run.counts)
            if why:
                run.add_violation("differs/" + f, "job %d (%s): %s in %s and %s" % (i, a["desc"][:1200], why, base, f), case=i, tag=f)


def compare_records(a, b, counts):
    if a["desc"] != b["desc"]:
        # Last digits of the random problem; the same job all the same.
        if re.sub(r"[-0-9.e]+", "#", a["desc"]) != re.sub(r"[-0-9.e]+", "#", b["desc"]):
            return "another job: %s" % b["desc"]
    if a["text"] != b["text"]:
        return "'%s' and '%s'" % (a["text"][:500], b["text"][:500])
    x, y = [float(v) for v in a["vals"]], [float(v) for v in b["vals"]]
    if len(x) != len(y):
        return "%d and %d values" % (len(x), len(y))
    for u, v in zip(x, y):
        counts["values-compared"] = counts.get("values-compared", 0) + 1
        if not (abs(u - v) <= a["tol"] * (1 + abs(u)) or (u != u and v != v) or u == v):
            return "values %.17g and %.17g" % (u, v)
    for u, v in zip(a["work"], b["work"]):
        if abs(u - v) > 10 + 0.2 * max(u, v):
            return "work %s and %s" % (a["work"], b["work"])
    return None


def run_c27(run, spec):
    import run_check as rc
    exe = run.build()["asan"]
    prog = build_program(run, sorted(glob.glob(os.path.join(rc.REPO, "stability_region", "*.cpp"))), "stability_region")
    run.run_shards(exe, extra=prog)


def run_c28(run, spec):
    import run_check as rc
    exe = run.build()["asan"]
    prog = build_program(run, sorted(glob.glob(os.path.join(rc.REPO, "examples", "*.cpp"))), "example", ["-ftrivial-auto-var-init=pattern"])
    run.run_shards(exe, extra=prog)


SPECS = {
    "C01": dict(
        rule="random ODE problem x method x solver options; non-trivial = at least two accepted steps, distinct by problem and options",
        required=["trajectories", "rows"]),
    "C02": dict(
        rule="random ODE problem x method x options, every step checked; non-trivial = at least two steps, distinct by problem and options",
        required=["trajectories", "erk-steps", "irk-steps", "probes"],
        assumptions=["tolerance of implicit steps is that of the nonlinear solver, times the conditioning of the stage system"]),
    "C03": dict(
        rule="each rooted tree up to the declared order x formula, and convergence studies on random smooth problems; non-trivial = a condition or slope that was judged",
        required=["order-conditions", "slopes", "judged"]),
    "C04": dict(
        rule="random stable linear systems x implicit methods x step sizes over 16 decades; non-trivial = |h lambda| not negligible, distinct by system and step",
        required=["A-stability", "L-stability", "isometry", "ratios", "steps"]),
    "C05": dict(
        rule="adaptive integrations of random problems, all attempts reconstructed; non-trivial = at least one decision of the controller was judged",
        required=["accepted", "rejected", "controller-decisions", "irk-rejections-judged"]),
    "C06": dict(
        rule="adaptive integration of random problems with exact solutions; non-trivial = a completed run compared at every row",
        required=["trajectories", "rows", "default-overload"]),
    "C07": dict(
        rule="random problem x method x dt x max_dt x interval; non-trivial = more than two rows, distinct by problem and options",
        required=["steps", "constant-runs", "max_dt-runs", "first-steps", "no-pair-twins"]),
    "C08": dict(
        rule="random problem x method x options x faults; non-trivial = a run with steps whose counters were all compared",
        required=["trajectories", "fun-evals", "rejections", "newton-rejections", "slow-runs"]),
    "C09": dict(
        rule="random problem x method, unlimited run and several limits; non-trivial = the limit cut the run",
        required=["limited-runs", "limits-hit"]),
    "C10": dict(
        rule="random problem x method, reference run and runs with other output options; non-trivial = rows to compare, distinct by problem and options",
        required=["variant-runs", "rows-compared", "files", "option-sequences"]),
    "C11": dict(
        rule="random problem x integrator with a recording functor; non-trivial = evaluations recorded over at least two steps",
        required=["runs", "evaluations", "multistep-runs", "pinned-runs"]),
    "C12": dict(
        rule="random problem x integrator x injected fault; non-trivial = the fault was reached",
        required=["recoveries", "cliffs", "blow-ups", "exceptions", "multistep-faults", "transient-faults", "constant-step-failures", "newton-limit-failed", "hopeless"]),
    "C13": dict(
        rule="jobs repeated, nested and in concurrent threads; non-trivial = at least two integrations interleaved, distinct by jobs",
        required=["repeated", "nested", "concurrent-jobs"], runner=run_c13,
        assumptions=["thread interleavings are those of this run; ThreadSanitizer also detects races that did not change a result"]),
    "C14": dict(
        rule="random calls of every public function; non-trivial = the call did work, distinct by arguments", runner=run_c14,
        assumptions=["OpenBLAS/LAPACK internals are not instrumented by ASan; valgrind sees them"]),
    "C16": dict(
        rule="random nonlinear systems with known root x options x faults; non-trivial = more than one iteration, distinct by system and options",
        required=["solves", "converged", "failed", "guaranteed", "linear", "quadratic-steps", "roots-compared", "wrappers", "preconditioner-pairs", "exceptions"]),
    "C17": dict(
        rule="random nonlinear systems with known root x options x faults; non-trivial = more than two iterations, distinct by system and options",
        required=["solves", "converged", "failed", "guaranteed", "roots-compared", "exceptions"]),
    "C18": dict(
        rule="random implicit method x problem x step x solver parameters x fault; non-trivial = more than one iteration, distinct by all of these",
        required=["solves", "converged", "failed", "guaranteed", "linear", "residuals", "singular", "faults", "exceptions", "variant-pairs"]),
    "C19": dict(
        rule="random sequences of operations on up to four buffers of four element types; non-trivial = elements were overwritten, distinct by sequence",
        required=["operations", "overwritten", "states", "instance-balances"]),
    "C20": dict(
        rule="random method, point set, step and problem; non-trivial = weights or states compared, distinct by all of these",
        required=["expansions", "moments", "point-sets", "interpolated", "method-weights"]),
    "C21": dict(
        rule="random pairs and chains of synthetic and real solutions; non-trivial = at least two rows, distinct by the pair",
        required=["merges", "rows", "failed-parts", "chains", "integrations"]),
    "C22": dict(
        rule="random sequences of lookups of known and unknown names and codes, random coefficient sets; non-trivial = distinct sequences",
        required=["lookups", "unknown-names", "unknown-codes", "coefficient-sets", "defaults", "random-sets", "unknown-coefficients", "wrong-sizes"]),
    "C23": dict(
        rule="random problem x order x step size; non-trivial = at least two steps beyond the start-up judged by the formula",
        required=["runs", "steps", "start-up-rows", "accuracy", "wrong-orders"]),
    "C24": dict(
        rule="random problem (also stiff, also unsolvable) x order x step size; non-trivial = at least two steps beyond the start-up judged by the formula",
        required=["runs", "steps", "start-up-rows", "accuracy", "stiff-bounded", "unsolvable", "wrong-orders"]),
    "C25": dict(
        rule="every bundled equation x random parameters x random state; non-trivial = distinct by all of these",
        required=["components", "jacobi-entries", "computes", "solutions", "energies"] + ["equation/" + n for n in ("exponential", "harmonic", "vdpol", "bruss", "rober", "dimer", "stiff_eq", "three_body", "kinetic_4", "lorenz")]),
    "C26": dict(
        rule="random problem x integrator x transformation, both integrated; non-trivial = at least three rows compared, distinct by all of these",
        required=["relation/" + n for n in ("shift", "permute", "double", "stack", "scale", "time-scale", "rotate", "autonomize", "split")] + ["invariant-rows", "rows-compared"]),
    "C27": dict(
        rule="the program run with every method and with random unknown names; non-trivial = distinct names", runner=run_c27,
        required=["programs", "points-inside", "points-outside", "poles", "unknown-methods"],
        assumptions=["the embedded formula is the one get_coefficients returns (judged by C02, C03, C22)"]),
    "C28": dict(
        rule="the program run with random equations, parameters, methods and options, and with options it must refuse; non-trivial = distinct command lines", runner=run_c28,
        required=["runs", "rows-compared", "refused", "defaults", "unconfirmed"] + ["equation/" + n for n in ("exponential", "stiff-equation", "robertson", "three-body", "van-der-pol", "brusselator", "lorenz")],
        assumptions=["the right-hand sides are those of test_equations.hpp (judged by C25)"]),
    "C29": dict(
        rule="random smooth functions x point x difference step; non-trivial = distinct by all of these",
        required=["entries", "evaluations", "correct-verified", "wrong-verified"]),
    "C15": dict(
        rule="random jobs over the whole library, each run in every configuration; non-trivial = the job did work, distinct by job and configuration", runner=run_c15,
        required=["configurations", "jobs-compared", "values-compared", "linked-programs", "headers-alone"],
        assumptions=["compilers and standard libraries are those installed; problems are well conditioned, so that rounding may differ but results may not"]),
}
