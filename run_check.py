#!/usr/bin/env python3
"""Decides one property of sile/prometrics by running the real code under monitors and sanitizers.

  run_check.py C01            (VERIF_SEED and VERIF_TIER are read from the environment)
  run_check.py --build        builds everything the checks use (setup)
  run_check.py --replay FILE  runs a recorded violation again

Exit status: 0 the property held on everything explored, 1 it is violated, 2 the check could not be run.
"""
import array
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
EVIDENCE = os.path.join(VERIF, "evidence")
TARGET = "x86_64-unknown-linux-gnu"
CPUS = os.cpu_count() or 4

# scale: multiplies the numbers of cases (quick tier); miri: interpret the concurrent workloads as well;
# parallel: run the concurrent workloads once more with the processor to themselves
PROPS = {
    "C01": dict(scale=15, miri=True, parallel=True),
    "C02": dict(scale=16, miri=True, parallel=True),
    "C03": dict(scale=4, miri=True, parallel=True),
    "C04": dict(scale=40, miri=True, parallel=True),
    "C05": dict(scale=40),
    "C06": dict(scale=20, miri=True, parallel=True),
    "C07": dict(scale=12),
    "C08": dict(scale=40),
    "C09": dict(scale=14, miri=True, parallel=True),
    "C10": dict(scale=5, parallel=True),
    "C11": dict(scale=8),
    "C12": dict(scale=4),
    "C13": dict(scale=5),
    "C14": dict(scale=7),
    "C15": dict(scale=14, miri=True, parallel=True),
    "C16": dict(scale=12, miri=True, parallel=True),
    "C17": dict(scale=30),
    "C18": dict(scale=5),
    "C19": dict(scale=5, miri=True, parallel=True),
    "C20": dict(scale=14, miri=True, parallel=True),
    "C21": dict(),
    "C22": dict(scale=40),
    "C23": dict(scale=24, miri=True, parallel=True),
    "C24": dict(scale=16, miri=True, parallel=True),
    "C25": dict(scale=1.5),
    "C26": dict(scale=40),
    "C27": dict(scale=5, miri=True, parallel=True),
    "C28": dict(scale=24, parallel=True),
    "C29": dict(scale=10),
    "C30": dict(scale=20),
    "C31": dict(scale=12, parallel=True),
    "C32": dict(scale=10),
    "C33": dict(scale=4, miri=True, parallel=True),
}

RULES = {
    "C01": "seeded sequences of hostile amounts over clones and other counters against exact sums, and threads adding dyadic "
           "amounts (any order gives the same sum); non-trivial: at least one accepted amount; distinct by the amounts",
    "C02": "rejected amounts against an unchanged value, and reader threads checking that reads never fall and lie between "
           "completed and started additions; distinct by the amounts or by the shape and what the readers saw",
    "C03": "sequential operation lists against f64 arithmetic and recorded concurrent histories searched for a linearization; "
           "a history counts only if operations overlapped; distinct by the operations with their results in call order",
    "C04": "random and extreme bounds with observations at, next to and between them recounted per bucket, also concurrently; "
           "distinct by bounds and observations",
    "C05": "bound lists in any order and multiplicity, linear and exponential sequences, NaN anywhere, against the sorted set; "
           "distinct by the configuration",
    "C06": "every rendering (text parsed again) while threads observe, between completed and started observations; "
           "distinct by the layout and the number of renderings",
    "C07": "observations with ties, NaN and infinities under random quantile sets against the definition by ranks; "
           "distinct by quantiles and observations",
    "C08": "observations and reads under virtual monotonic and wall clocks that are moved independently; distinct by the script",
    "C09": "threads observing distinct values that quantiles (i+0.5)/n read back completely, and concurrent readers; "
           "distinct by the shape and what was read",
    "C10": "random registrations over small pools of names and labels, gathers against the sums of a model; distinct by the script",
    "C11": "pooled histograms and summaries with different bounds and quantiles against a recount; distinct by members",
    "C12": "hostile names, labels, help, values and timestamps through an independent strict parser; distinct by the text",
    "C13": "the same metrics registered in several orders and name splits; distinct by the metrics",
    "C14": "scripted collectors that leave, register others and panic, with a log of polls and drops; distinct by the script",
    "C15": "registrations from threads while gathers run, ordered by tickets taken at calls and returns; distinct by the trace",
    "C16": "lifetimes of handles and gather results against gathers, heap bytes after drops; distinct by the script",
    "C17": "short names exhaustively, single bytes and characters everywhere, random combinations, against the grammar; "
           "distinct by the builder settings",
    "C18": "label operations through clones against a map; distinct by the operations",
    "C19": "concurrent label histories searched for a linearization, disjoint changes, numbered label sets; a history counts only "
           "if operations overlapped; distinct by the operations with their results in call order",
    "C20": "gathers while threads change labels, each metric identified by a power of two, against the recorded label history; "
           "distinct by the shape and the number of changes that overlapped a gather",
    "C21": "every workload of the other properties and tours of the whole safe API under Miri, AddressSanitizer and "
           "ThreadSanitizer; evaluations are cases executed under an instrument; distinct by what the case did",
    "C22": "nested closures timed under virtual clocks (exact elapsed time), wall-clock jumps, conversions of durations; "
           "distinct by the durations",
    "C23": "nested and concurrent tracked closures that return or panic against the exact depth; distinct by the nest",
    "C24": "timestamp operations through clones against a model, every text line parsed; distinct by the operations",
    "C25": "files, limits, threads, memory, CPU time, names and clocks changed around gathers that are compared with readings of "
           "the kernel before and after; distinct by what was changed",
    "C26": "scripts of common builders, clones and metrics against directly built metrics and their registries; distinct by the script",
    "C27": "gather results compared with what they showed at first after metrics changed, were dropped and were gathered again, "
           "also concurrently, and all views of a result with each other; distinct by the script",
    "C28": "random operations from inside collectors, timed and tracked closures, bucket iterators, formatters and label loops, with "
           "panics, against exact totals; one operation held up inside while another thread works; a watchdog reports deadlocks; "
           "distinct by the operations",
    "C29": "heap bytes in use after n and after 4n operations of chosen kinds, sequential and concurrent; distinct by the script",
    "C30": "names, labels, quantiles and kinds compared in all pairs by every comparison trait and hash against the order of what "
           "they stand for, and what collectors yield; distinct by the values",
    "C31": "a history run twice, without and with reads of every kind added (also from other threads), everything visible compared "
           "at the end; distinct by the history and the number of reads",
    "C32": "everything that can be shown, written to writers that fail, fail once or panic after any number of bytes, against its "
           "full text; distinct by the text",
    "C33": "histories of all kinds of operations on several metrics, builders, registries and gatherers, everything visible of all of "
           "them compared with a model after each operation; several such worlds on threads at once; distinct by the history",
}


class Stop(Exception):
    """The check cannot be run."""


def note(*a):
    print(*a, flush=True)


def limits(mem_gb):
    def f():
        os.setpgid(0, 0)
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, env=None, mem_gb=0, cwd=HARNESS):
    """Returns (status, stdout, stderr); status is None after a timeout."""
    e = dict(os.environ)
    e.update(env or {})
    out = tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=e, cwd=cwd, preexec_fn=limits(mem_gb))
    try:
        st = p.wait(timeout)
    except subprocess.TimeoutExpired:
        st = None
    if st is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def text(f):
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200_000))
        return f.read().decode("utf-8", "replace")
    return st, text(out), text(err)


def lock_file():
    # the dependencies are pinned by the committed lock file; /repo's own one is not used
    if not os.path.exists(os.path.join(HARNESS, "Cargo.lock")):
        raise Stop("harness/Cargo.lock is missing")


def build_native():
    st, _, err = run(["cargo", "build", "--release", "--offline", "--target-dir", BUILD], 600,
                     {"RUSTFLAGS": "-Awarnings"})
    if st != 0:
        raise Stop("building the harness failed:\n" + err[-3000:])
    return os.path.join(BUILD, "release", "vmon")


MIRI_ENV = {
    "RUSTFLAGS": "-Zub-checks=no -Awarnings",
    "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false",
    "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false",
}


def miri_cmd(args):
    return ["cargo", "+nightly", "miri", "run", "-q", "--release", "--offline", "--no-default-features",
            "--target-dir", os.path.join(BUILD, "miri"), "--"] + args


def build_miri():
    """Returns an error or None."""
    st, out, err = run(miri_cmd(["run", "C01", "--only", "none"]), 400,
                       dict(MIRI_ENV, MIRIFLAGS="-Zmiri-disable-isolation"))
    if st == 0 and '"evaluations":0' in out:
        return None
    return "Miri cannot be used here: " + err[-800:]


SAN = {
    "asan": (["-Zsanitizer=address"], [], {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1"}),
    "tsan": (["-Zsanitizer=thread"], ["-Zbuild-std"], {"TSAN_OPTIONS": "exitcode=77:halt_on_error=1:history_size=4"}),
}


def build_san(kind):
    flags, extra, _ = SAN[kind]
    d = os.path.join(BUILD, kind)
    st, _, err = run(["cargo", "+nightly", "build", "--release", "--offline", "--no-default-features", "--target", TARGET,
                      "--target-dir", d] + extra, 600, {"RUSTFLAGS": " ".join(flags + ["-Awarnings"])})
    if st != 0:
        return None, "%s cannot be used here: %s" % (kind, err[-800:])
    return os.path.join(d, TARGET, "release", "vmon"), None


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.evaluations = 0
        self.keys = set()
        self.extra_distinct = 0
        self.counters = {}
        self.samples = []
        self.inconclusive = []
        self.truncated = []
        self.findings = []
        self.violations = []
        self.stages = {}
        self.work = tempfile.mkdtemp(prefix="vmon-")
        self.lock = threading.Lock()

    def merge(self, d, stage, keys=None, prefix=""):
        with self.lock:
            s = self.stages.setdefault(stage, {"evaluations": 0})
            s["until_s"] = round(time.time() - self.start, 1)
            s["evaluations"] += d["evaluations"]
            self.evaluations += d["evaluations"]
            if keys is not None:
                self.keys.update(keys)
            for k, v in d["counters"].items():
                k = prefix + k
                if k.endswith("_max"):
                    self.counters[k] = max(self.counters.get(k, 0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0) + v
            self.samples += [x for x in d["samples"] if x not in self.samples]
            # (workloads on virtual clocks do nothing in interpreted and sanitized builds)
            self.inconclusive += [x for x in d["inconclusive"] if self.id != "C21" or "interposed" not in x]
            self.truncated += [prefix + x for x in d["truncated"]]
            if self.id != "C21":
                self.findings += [x for x in d["findings"] if x not in self.findings]

    def violation(self, stage, workload, case, message, command, output=""):
        with self.lock:
            self.violations.append(dict(stage=stage, workload=workload, case=case, message=message, command=command,
                                        output=output[-20000:]))

    # -- native --------------------------------------------------------------------------------

    def native(self, exe, shards, extra, stage, seed, timeout):
        def one(i):
            out = os.path.join(self.work, "%s.%d" % (stage, i))
            args = ["run", self.id, "--tier", self.tier, "--seed", str(seed), "--shard", "%d/%d" % (i, shards),
                    "--out", out] + extra
            for attempt in range(2):
                st, so, se = run([exe] + args, timeout, mem_gb=8)
                d = None
                try:
                    with open(out) as f:
                        d = json.load(f)
                except (OSError, ValueError):
                    pass
                if d is not None and st in (0, 1):
                    keys = array.array("Q")
                    try:
                        with open(out + ".keys", "rb") as f:
                            keys.frombytes(f.read())
                    except OSError:
                        pass
                    self.merge(d, stage, keys)
                    for v in d["violations"]:
                        cmd = [exe, "run", self.id, "--tier", self.tier, "--seed", str(seed), "--only", v["workload"],
                               "--case", str(v["case"])]
                        self.violation(stage, v["workload"], v["case"], v["message"], cmd)
                    return
                if st is not None and st < 0 and -st != signal.SIGKILL:
                    # e.g. a segmentation fault, or an abort by a panic while unwinding
                    self.violation(stage, "?", 0, "the process was ended by signal %d: %s" % (-st, se[-1500:]), [exe] + args, se)
                    return
                if st is None:
                    break
            self.inconclusive.append("%s shard %d: %s %s" % (stage, i, "timeout" if st is None else "status %s" % st, se[-300:]))
        self.parallel([lambda i=i: one(i) for i in range(shards)])

    def parallel(self, fs):
        ts = [threading.Thread(target=f) for f in fs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    # -- Miri ----------------------------------------------------------------------------------

    def miri(self, procs, cap, rounds=1):
        err = build_miri()
        if err:
            self.inconclusive.append(err)
            return
        # memory errors are C21's business; this stage explores schedules and weak memory behaviours
        base = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmir-opt-level=3"

        def one(i):
            mseed = (self.seed * 1009 + i) & 0xffffffff
            rate = ["0.01", "0.05", "0.2", "0.002"][i % 4]
            flags = "%s -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (base, mseed, rate)
            args = ["run", self.id, "--tier", self.tier, "--seed", str(self.seed + 77), "--shard", "%d/%d" % (i, procs * rounds),
                    "--cap", str(cap), "--out", "-"]
            st, so, se = run(miri_cmd(args), cap * 6 + 120, dict(MIRI_ENV, MIRIFLAGS=flags))
            d = None
            for line in so.split("\n"):
                if line.startswith("{"):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        pass
            if d is None:
                why = "timeout" if st is None else se[-600:]
                self.inconclusive.append("miri process %d gave no result: %s" % (i, why))
                return
            self.merge(d, "miri", None, "miri.")
            for v in d["violations"]:
                cmd = ["env", "MIRIFLAGS=" + flags] + ["%s=%s" % x for x in MIRI_ENV.items()] + miri_cmd(args)
                self.violation("miri", v["workload"], v["case"], v["message"], cmd, se)
        for r in range(rounds):
            self.parallel([lambda i=i: one(r * procs + i) for i in range(procs)])

    # -- undefined behaviour (C21) ---------------------------------------------------------------

    PARTS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
             "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24", "C26", "C27", "C28", "C30", "C31", "C32",
             "C33"]

    def ub(self):
        usable = []
        errs = {}
        exes = {}

        def b_miri():
            errs["miri"] = build_miri()

        def b_san(k):
            exes[k], errs[k] = build_san(k)
        self.parallel([b_miri, lambda: b_san("asan"), lambda: b_san("tsan")])
        for k in ("miri", "asan", "tsan"):
            if errs[k]:
                self.inconclusive.append(errs[k])
            else:
                usable.append(k)
        if not usable:
            raise Stop("no instrument could be built: %s" % errs)
        self.stages = {k: {"evaluations": 0} for k in usable}
        if "miri" in usable:
            self.known_ub()
        for k in ("asan", "tsan"):
            if k in usable:
                self.ub_san(k, exes[k])
        if "miri" in usable:
            self.ub_miri()

    def ub_san(self, kind, exe):
        env = SAN[kind][2]
        cap = 60 if self.thorough else 1.2
        scale = 1.0 if self.thorough else 0.4
        rounds = 2 if self.thorough else 1
        n = CPUS

        def one(i, r):
            out = os.path.join(self.work, "%s.%d.%d" % (kind, r, i))
            seed = self.seed + 1000 * r
            parts = self.PARTS
            args = ["run", "UB", "--tier", self.tier, "--seed", str(seed), "--shard", "%d/%d" % (i, n), "--parts",
                    ",".join(parts), "--out", out, "--cap", str(cap), "--scale", str(scale)]
            st, so, se = run([exe] + args, 3600 if self.thorough else 500, env)
            if st == 77 or "ERROR: AddressSanitizer" in se or "WARNING: ThreadSanitizer" in se:
                self.violation(kind, "UB", i, "%s reports: %s" % (kind, summary(se)), [exe] + args, se)
                return
            try:
                with open(out) as f:
                    d = json.load(f)
                keys = array.array("Q")
                with open(out + ".keys", "rb") as f:
                    keys.frombytes(f.read())
            except (OSError, ValueError):
                if st is not None and st < 0 and -st in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
                    self.violation(kind, "UB", i, "the process was ended by signal %d" % -st, [exe] + args, se)
                else:
                    self.inconclusive.append("%s shard %d: status %s %s" % (kind, i, st, se[-300:]))
                return
            if d["violations"]:
                # functional failures are decided by the other checks
                d["counters"]["functional_failures_left_to_other_checks"] = len(d["violations"])
            self.merge(d, kind, keys, kind + ".")
        for r in range(rounds):
            self.parallel([lambda i=i: one(i, r) for i in range(n)])

    def miri_ub_one(self, args, mseed, rate, timeout, what):
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (mseed & 0xffffffff, rate)
        st, so, se = run(miri_cmd(args), timeout, dict(MIRI_ENV, MIRIFLAGS=flags))
        if "error: Undefined Behavior" in se or "error: memory leaked" in se or "error: deadlock" in se:
            kind = "deadlock" if "error: deadlock" in se else "ub"
            return kind, se, ["env", "MIRIFLAGS=" + flags] + ["%s=%s" % x for x in MIRI_ENV.items()] + miri_cmd(args)
        for line in so.split("\n"):
            if line.startswith("{"):
                try:
                    return "ok", json.loads(line), None
                except ValueError:
                    pass
        if st == 0:
            return "ok", None, None
        return "none", ("timeout" if st is None else "status %s: %s" % (st, se[-500:])), None

    def ub_miri(self):
        # the tours on two processes, the other workloads divided among the rest
        n = CPUS
        rounds = 6 if self.thorough else 1
        tcap = 60 if self.thorough else 7
        pcap = 15 if self.thorough else 1.0
        budget = 600 if self.thorough else 30
        rest = max(1, n - 2)

        def one(i, r):
            if i < 2:
                parts, cap = "none", tcap
                shard = "%d/%d" % (i + 2 * r, 2 * rounds)
            else:
                mine = [p for k, p in enumerate(self.PARTS) if k % rest == (i - 2 + r) % rest]
                parts, cap = ",".join(mine), pcap
                shard = "%d/%d" % (r, rounds)
            args = ["run", "UB", "--tier", self.tier, "--seed", str(self.seed + r), "--shard", shard,
                    "--parts", parts, "--cap", str(cap), "--budget", str(budget), "--out", "-"]
            if i >= 2:
                args.append("--no-tour")
            res, x, cmd = self.miri_ub_one(args, self.seed * 31 + i + 100 * r, ["0.01", "0.05", "0.1"][i % 3],
                                           budget * 2 + 300, "UB")
            if res == "ub":
                self.violation("miri", "UB", i, "Miri reports: " + summary(x), cmd, x)
            elif res == "ok" and x:
                if x["violations"]:
                    x["counters"]["functional_failures_left_to_other_checks"] = len(x["violations"])
                self.merge(x, "miri", None, "miri.")
            else:
                self.inconclusive.append("miri process %d: %s" % (i, str(x)[-300:]))
        for r in range(rounds):
            self.parallel([lambda i=i: one(i, r) for i in range(n)])

    def known_ub(self):
        def one(name):
            res, x, _ = self.miri_ub_one(["micro", name], self.seed, "0.01", 200, name)
            if res == "ub":
                self.findings.append("%s: %s" % (name, summary(x)))
            elif res == "none":
                self.inconclusive.append("%s: %s" % (name, x))
        self.parallel([lambda n=n: one(n) for n in ("labels-get-outlives-update", "labels-iter-item-outlives-iter")])

    # -- verdict -------------------------------------------------------------------------------

    def decide(self):
        try:
            if self.id == "C21":
                self.ub()
            else:
                p = PROPS[self.id]
                lock_file()
                exe = build_native()
                shards = CPUS
                scale = p["scale"] if not self.thorough else max(1.0, p["scale"] / 2)
                cap = 15 if not self.thorough else 300
                self.native(exe, shards, ["--scale", str(scale), "--cap", str(cap)], "native", self.seed,
                            7200 if self.thorough else 420)
                if not self.violations and p.get("parallel"):
                    self.native(exe, 2, ["--concurrent", "--scale", str(scale * 2), "--cap", "60" if self.thorough else "3"],
                                "parallel", self.seed + 500_000, 7200 if self.thorough else 200)
                if not self.violations and p.get("miri"):
                    self.miri(CPUS, 60 if self.thorough else 5, 6 if self.thorough else 1)
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        return self.verdict()

    def known(self):
        names = {}
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> name=<scenario> <what fails>
                    words = line.split()
                    if words[1] == "property=" + self.id:
                        names[words[2].split("=", 1)[1]] = " ".join(words[3:])
        return names

    def verdict(self):
        known = self.known()
        for f in self.findings:
            name = f.split(":", 1)[0]
            if name in known:
                note("KNOWN-FINDING: property=%s %s: %s" % (self.id, name, known[name]))
            else:
                self.violation("scenario", name, 0, f, [])
        main = "native" if self.id != "C21" else None
        done = self.stages.get(main, {}).get("evaluations", 0) if main else self.evaluations
        usable = done > 0
        paths = []
        if self.violations:
            d = os.path.join(EVIDENCE, "replays")
            os.makedirs(d, exist_ok=True)
            for k, v in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.id, k))
                with open(p, "w") as f:
                    json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, **v), f, indent=1)
                paths.append(p)
        self.evidence()
        if self.violations:
            for p, v in zip(paths, self.violations):
                note("%s: %s #%s (%s): %s" % (self.id, v["workload"], v["case"], v["stage"], v["message"][:1500]))
                note("VIOLATION property=%s replay=%s" % (self.id, p))
            return 1
        if not usable:
            note("%s: nothing could be observed: %s" % (self.id, self.inconclusive[:3]))
            return 2
        note("%s: held on %d executions, %d distinct (%s) in %.1f s%s" % (
            self.id, self.evaluations, len(self.keys),
            ", ".join("%s %d until %ss" % (k, v["evaluations"], v.get("until_s")) for k, v in self.stages.items()), time.time() - self.start,
            "; inconclusive parts: %d" % len(self.inconclusive) if self.inconclusive else ""))
        return 0

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        rule = RULES[self.id]
        e = dict(
            property=self.id, tier=self.tier, seed=self.seed, level="exploration",
            coverage=dict(
                evaluations=self.evaluations,
                distinct_nontrivial=len(self.keys),
                rule=rule + ("; interpreted (Miri) executions count as evaluations but not as distinct cases"
                             if "miri" in self.stages else ""),
                samples=[s[:500] for s in self.samples[:16]],
                stages=self.stages,
                observed=dict(sorted(self.counters.items())),
                truncated_by_time=sorted(set(self.truncated))[:40],
            ),
            assumptions=[
                "the clocks are those of clock_gettime, which the harness replaces (native stages)",
                "observations are made at the public API of the crate built from /repo's working tree",
            ],
            wall_s=round(time.time() - self.start, 2),
            violations=len(self.violations),
        )
        if self.inconclusive:
            e["coverage"]["inconclusive"] = [x[:300] for x in self.inconclusive[:10]]
        if self.findings:
            e["coverage"]["known_findings_seen"] = [x[:300] for x in self.findings]
        if self.violations:
            e["coverage"]["violations"] = [dict(workload=v["workload"], case=v["case"], message=v["message"][:600])
                                           for v in self.violations[:5]]
        p = os.path.join(EVIDENCE, self.id + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)


def summary(err):
    keep = [l.strip() for l in err.splitlines()
            if "error: " in l or "SUMMARY:" in l or "ERROR: " in l or "WARNING: Thread" in l or "--> " in l or "    #" in l]
    return " | ".join(keep[:12])[:1500]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    note("property %s, %s #%s: %s" % (v["property"], v["workload"], v["case"], v["message"]))
    if v["stage"] in ("native", "parallel"):
        build_native()
    elif v["stage"] in ("asan", "tsan"):
        build_san(v["stage"])
    note("$ " + " ".join(v["command"]))
    env = dict(SAN[v["stage"]][2]) if v["stage"] in SAN else {}
    st, so, se = run(v["command"], 1200, env)
    note(so[-4000:])
    note(se[-4000:])
    note("status %s" % st)
    return 0 if st == 0 else 1


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--build":
        build_native()
        note(build_miri() or "miri works")
        for k in SAN:
            note(build_san(k)[1] or k + " works")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(sys.argv[1], tier if tier in ("quick", "thorough") else "quick", seed)
    try:
        return c.decide()
    except Stop as e:
        note("%s: %s" % (sys.argv[1], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
