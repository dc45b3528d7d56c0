#!/usr/bin/env python3
"""Builds the code under /repo with the monitors of one property, runs it, and
reports. See DESIGN.md. Usage: run_check.py ID [--replay FILE]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RTM_REPO", "/repo")
NPROC = 8
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
STD = ["-std=c++11", "-w"]
LIBS = ["-larmadillo", "-llapack", "-lblas"]
FLAVOURS = {
    "asan": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "vg": ("g++", ["-O1", "-g1"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"]),
    "o0": ("g++", ["-O0", "-g1"]),
    "plain": ("g++", ["-O2", "-g1"]),
    "ndebug": ("g++", ["-O3", "-DNDEBUG"]),
    "debugout": ("g++", ["-O1", "-DDEBUG_OUTPUT"]),
    "std20": ("g++", ["-O2", "-std=c++20"]),
    "clang": ("clang++", ["-O2", "-std=c++17"]),
}
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", TSAN_OPTIONS="exitcode=99:halt_on_error=1:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"))


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Run:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.tmp = tempfile.mkdtemp(prefix="rtm-%s-" % pid)
        self.viol, self.cases, self.counts, self.sigs, self.samples = [], 0, {}, set(), []
        self.n_viol_total = 0
        self.notes = {}
        self.env = dict(ENV)

    # ------------------------------------------------------------ building --
    def cmd(self, argv, **kw):
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def objects(self, flavour, sources, extra=()):
        """[(compiler argv, object)] for the given sources."""
        cc, fl = FLAVOURS[flavour]
        r = []
        for s in sources:
            o = os.path.join(self.tmp, "%s-%s.o" % (flavour, re.sub(r"\W", "_", s)))
            r.append(([cc] + STD + fl + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + list(extra) + ["-c", s, "-o", o], o))
        return r

    def compile_all(self, jobs):
        def one(j):
            rc, out = self.cmd(j[0])
            if rc:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(j[0]), out[-3000:]))
        # biggest first: harnesses take longer than the library
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))

    def lib_sources(self):
        return sorted(glob.glob(os.path.join(REPO, "*.cpp")))

    def link(self, flavour, objs, exe):
        cc, fl = FLAVOURS[flavour]
        rc, out = self.cmd([cc] + fl + objs + ["-o", exe] + LIBS + ["-lpthread"])
        if rc:
            raise CheckError("link failed:\n" + out[-3000:])
        return exe

    def build(self, harness=None, flavours=("asan",), extra=()):
        """One executable per flavour: harness + the library's sources."""
        harness = os.path.join(VERIF, "harness", (harness or self.pid) + ".cpp")
        jobs, per = [], {}
        for f in flavours:
            h = self.objects(f, [harness], extra)
            l = self.objects(f, self.lib_sources())
            jobs = h + jobs + l
            per[f] = [o for _, o in h + l]
        self.compile_all(jobs)
        return {f: self.link(f, per[f], os.path.join(self.tmp, "harness-" + f)) for f in flavours}

    # ------------------------------------------------------------- running --
    def run_shards(self, exe, tag="", deadline=None, prefix=(), caselimit=60, extra="", nshards=NPROC, keyprefix=""):
        deadline = deadline or (240 if TIER == "quick" else 600)
        def shard(k):
            start, outs, tries = 0, [], 0
            while True:
                out = os.path.join(self.tmp, "out-%s-%d-%d" % (tag, k, tries))
                prog = out + ".progress"
                errf = out + ".err"
                argv = list(prefix) + [exe, "--seed", str(SEED), "--tier", TIER, "--shard", str(k), "--nshards", str(nshards),
                        "--start", str(start), "--out", out, "--progress", prog, "--caselimit", str(caselimit),
                        "--deadline", str(deadline)]
                if extra:
                    argv += ["--extra", extra]
                with open(errf, "wb") as e:
                    try:
                        rc = subprocess.run(argv, stdout=subprocess.DEVNULL, stderr=e, env=self.env, cwd=self.tmp,
                                            timeout=deadline + 10 * caselimit).returncode
                    except subprocess.TimeoutExpired:
                        rc = 95
                outs.append(out)
                if rc == 0:
                    return outs, None
                if rc == 97:
                    raise CheckError("harness could not write its output")
                try:
                    case = int(open(prog).read().split()[0])
                except (OSError, IndexError, ValueError):
                    raise CheckError("harness died before its first case (rc %d): %s" % (rc, open(errf, errors="replace").read()[-2000:]))
                err = open(errf, errors="replace").read()
                key = "hang" if rc == 95 else self.crash_key(err, rc)
                with open(out, "a") as f:
                    f.write("\n" + json.dumps({"type": "violation", "case": case, "key": key,
                            "detail": ("case exceeded %d s of CPU time" % caselimit) if rc == 95 else "exit status %d: %s" % (rc, err[-2500:])}) + "\n")
                    f.write(json.dumps({"type": "summary", "cases": 1, "counts": {}, "sigs": [], "samples": []}) + "\n")
                start, tries = case + 1, tries + 1
                if tries >= (2 if key == "hang" else 4):
                    return outs, None
        with ThreadPoolExecutor(nshards) as ex:
            res = list(ex.map(shard, range(nshards)))
        for outs, _ in res:
            for o in outs:
                self.read(o, tag, keyprefix)

    @staticmethod
    def crash_key(err, rc):
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
        if m: return "asan/" + m.group(1)
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        if m: return "ubsan/" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:50]
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        if m: return "tsan/" + m.group(1).strip().replace(" ", "-")
        m = re.search(r"^==\d+== (Invalid read|Invalid write|Conditional jump|Use of uninit|Syscall param|Mismatched free|Invalid free|\d[\d,]* bytes in)", err, re.M)
        if m: return "valgrind/" + re.sub(r"[^A-Za-z]+", "-", "leak" if m.group(1).endswith("bytes in") else m.group(1))
        m = re.search(r"Assertion `([^']{0,60})", err)
        if m: return "assert/" + re.sub(r"\W+", "-", m.group(1))
        m = re.search(r"terminate called", err)
        if m: return "crash/terminate"
        return "crash/rc%d" % rc

    def read(self, path, tag="", keyprefix=""):
        if not os.path.exists(path):
            return
        for line in open(path, errors="replace"):
            line = line.strip()
            if not line:
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue   # a record cut short by a crash; the crash itself is reported
            if d["type"] == "violation":
                self.add_violation(keyprefix + d["key"], d["detail"], case=d.get("case"), tag=tag)
            else:
                self.cases += d["cases"]
                for k, n in d["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + n
                self.sigs.update(keyprefix + s for s in d["sigs"])
                if len(self.samples) < 6:
                    self.samples += d["samples"][:1]
                if d.get("cut"):
                    self.notes["cut_short_by_deadline"] = True

    def add_violation(self, key, detail, case=None, tag="", **kw):
        self.viol.append(dict(key=key, detail=detail, case=case, tag=tag, **kw))

    # ----------------------------------------------------------- reporting --
    def finish(self, spec):
        known = {}
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.pid:
                known[m.group(2)] = m.group(3)
        bad, seen = [], set()
        for v in self.viol:
            if v["key"] in known:
                if v["key"] not in seen:
                    seen.add(v["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]]))
            else:
                bad.append(v)
        rep_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rep_dir, exist_ok=True)
        for f in glob.glob(os.path.join(rep_dir, self.pid + "-*.json")):
            os.unlink(f)
        shown = {}
        for v in bad:
            if v["key"] in shown:
                continue
            path = os.path.join("evidence", "replays", "%s-%d.json" % (self.pid, len(shown) + 1))
            shown[v["key"]] = path
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, **v), f, indent=1)
            if len(shown) <= 12:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  [%s] %s" % (v["key"], v["detail"][:400].replace("\n", " ")))
        cov = dict(evaluations=self.cases, distinct_nontrivial=len(self.sigs), rule=spec["rule"],
                   samples=self.samples or ["none"], monitor_events=dict(sorted(self.counts.items())), **self.notes)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="exploration", coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s; %s" %
              (self.pid, self.cases, len(self.sigs), len(bad), ev["wall_s"], json.dumps(cov["monitor_events"])))
        if bad:
            return 1
        for k in spec.get("required", []):
            if not self.counts.get(k):
                raise CheckError("the monitors saw no '%s' event: nothing was decided" % k)
        if not self.cases or not self.sigs:
            raise CheckError("no case was observed")
        return 0


def default_runner(run, spec):
    exe = run.build()["asan"]
    run.run_shards(exe)


def replay(run, spec, path):
    global SEED, TIER
    d = json.load(open(path))
    SEED, TIER = d["seed"], d["tier"]
    print(json.dumps(d, indent=1))
    if d.get("case") is None:
        return
    exe = run.build(spec.get("harness"))["asan"]
    out = os.path.join(run.tmp, "replay")
    rc = subprocess.run([exe, "--seed", str(SEED), "--tier", TIER, "--case", str(d["case"]), "--out", out, "--verbose", "0"], env=ENV).returncode
    print("exit status", rc)
    print(open(out).read())


def main():
    pid = sys.argv[1]
    sys.path.insert(0, VERIF)
    sys.modules["run_check"] = sys.modules["__main__"]   # checks.py imports this module
    from checks import SPECS
    spec = SPECS[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    run = Run(pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            replay(run, spec, sys.argv[3])
            return 0
        spec.get("runner", default_runner)(run, spec)
        return run.finish(spec)
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
