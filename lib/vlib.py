"""Common parts of all checks: running programs, verdicts, evidence."""
import hashlib, json, os, random, re, resource, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, NPROC

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:"
                    "handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1",
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                    r"ERROR: LeakSanitizer[^\n]*|Assertion [^\n]*failed[^\n]*|Assertion `[^\n]*|"
                    r"terminate called[^\n]*|\*\*\* stack smashing[^\n]*|double free[^\n]*|free\(\): [^\n]*|"
                    r"malloc\(\): [^\n]*|corrupted [^\n]*)")


T0 = time.time()


class Result:
    __slots__ = ("cmd", "rc", "out", "err", "timeout", "secs", "stdin")

    def san(self):
        """The first sanitizer/assertion report in the output, or None."""
        m = SAN_RE.search(self.err) or SAN_RE.search(self.out[-20000:])
        return m.group(0).strip() if m else None

    def crashed(self):
        return (not self.timeout) and (self.rc < 0 or self.rc in (99, 66, 134, 139, 136))


def run(cmd, timeout=120, env=None, stdin=None, mem_gb=None, retry=True, cwd=None):
    """Run a program.  A time-out is tried once more before it is reported."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "PRIMESUM_", "LD_"))}
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    if env:
        e.update(env)
    pre = None
    if mem_gb:
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    r = Result()
    r.cmd = [str(c) for c in cmd]
    r.stdin = stdin
    for attempt in (0, 1):
        t = time.time()
        left = timeout
        if not THOROUGH:
            # an answer is due within 900 s
            left = max(20, min(timeout, T0 + 820 - t))
        p = subprocess.Popen(r.cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=pre, cwd=cwd,
                             start_new_session=True)
        try:
            o, x = p.communicate(stdin.encode("utf-8", "surrogateescape") if stdin is not None else None,
                                 timeout=left)
            r.timeout = False
        except subprocess.TimeoutExpired:
            o = x = b""
            for sig in (signal.SIGTERM, signal.SIGKILL):
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    pass
                try:
                    o, x = p.communicate(timeout=5 if sig == signal.SIGTERM else 60)
                    break
                except subprocess.TimeoutExpired:
                    continue
            r.timeout = True
        r.rc = p.returncode
        if r.timeout and attempt == 0 and left < timeout:
            # stopped before its time was up: says nothing
            r.timeout = False
            r.rc = -9
        r.out = o.decode("utf-8", "replace")
        r.err = x.decode("utf-8", "replace")
        r.secs = time.time() - t
        if not r.timeout or not retry:
            break
    return r


def pmap(f, items, workers=None):
    with ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(f, items))


class Check:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.samples = []
        self.counters = {}
        self.violations = []
        self.inconclusive = []
        self.known_hits = []
        self.assumptions = []
        self.notes = []
        self.hung = False
        # only sanitizer reports and crashes count, a wrong value belongs to another property
        self.only_san = False
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.known = []
        kf = os.path.join(VERIF, "known-findings")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3).strip()))

    # --- counting what was observed
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, n=1, sample=None):
        """n evaluations; key identifies a distinct non-trivial case."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(hash(key))
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def cases(self, n, distinct):
        with self.lock:
            self.evaluations += n
            self.extra_distinct += distinct

    # --- verdicts
    def violation(self, key, what, replay=""):
        """key: stable identification of the failing input/call site/history."""
        with self.lock:
            for k, desc in self.known:
                if k == key:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, desc), flush=True)
                    return
            self.violations.append((key, what))
            if len(self.violations) > 5:
                return
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.txt" % (self.pid, len(self.violations)))
            with open(path, "w", errors="replace") as f:
                f.write("property %s seed %d tier %s\nkey: %s\n%s\n\n%s\n" % (self.pid, SEED, TIER, key, what, replay))
            print("violation of %s: %s: %s" % (self.pid, key, what[:1500]), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def hang(self, what, text, replay=""):
        if self.only_san:
            self.unsure("%s: %s" % (what, text))
            return
        self.hung = True
        self.violation("hang:" + what, text, replay)

    def stage(self, what):
        """Note how long the parts of a check take."""
        if os.environ.get("VERIF_STAGES"):
            print("%7.1f s: %s" % (time.time() - self.t0, what), flush=True)

    def late(self):
        """True if no further work should be started."""
        return self.hung or (not THOROUGH and time.time() - self.t0 > 600)

    def unsure(self, what):
        with self.lock:
            self.inconclusive.append(what)
            print("inconclusive: %s" % what[:400], flush=True)

    def note(self, what):
        self.notes.append(what)

    def finish(self):
        distinct = len(self.distinct) + self.extra_distinct
        if self.evaluations == 0 and not self.violations:
            print("no case has been observed: error of the check", flush=True)
            sys.exit(3)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": distinct, "rule": self.rule,
               "samples": self.samples[:12] or ["-"], "observed": dict(sorted(self.counters.items())),
               "inconclusive": self.inconclusive[:20]}
        if self.notes:
            cov["notes"] = self.notes
        if self.known_hits:
            cov["known_findings_seen"] = self.known_hits
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s" %
              (self.pid, self.evaluations, distinct, len(self.violations), len(self.inconclusive), time.time() - self.t0))
        print(json.dumps(self.counters))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def harness_lines(check, res, what):
    """Common treatment of a harness run.

    Harness protocol on stdout, one item per line:
      C <name> <n>      counter
      E <n> <distinct>  evaluations, distinct non-trivial cases
      S <text>          sample
      V <key> <text>    violation
    and the last line is DONE.  A crash is a violation with the sanitizer report or
    the signal; a time-out is inconclusive.
    """
    done = False
    for line in res.out.split("\n"):
        if line.startswith("C "):
            f = line.split()
            check.count(f[1], int(f[2]))
        elif line.startswith("E "):
            f = line.split()
            check.cases(int(f[1]), int(f[2]))
        elif line.startswith("S "):
            check.case(n=0, sample=line[2:])
        elif line.startswith("V "):
            f = line.split(" ", 2)
            if check.only_san:
                check.count("values_that_differ")
                continue
            check.violation(f[1], f[2] if len(f) > 2 else "", "command: " + " ".join(res.cmd) + "\n" + line)
        elif line == "DONE":
            done = True
    if res.timeout:
        # the second time-out in a row, each of them many times the usual time
        last = [l for l in res.out.split("\n") if l.startswith("AT ")][-1:]
        check.hang(what, "%s does not end (twice %.0f s) %s" % (what, res.secs, last), "command: " + " ".join(res.cmd))
        return False
    if res.rc == -9:
        check.unsure("%s: ended from outside (memory?)" % what)
        return False
    if res.rc == 3 and "ORACLE ERROR" in res.err:
        print("error of the check: " + res.err[-1500:], flush=True)
        sys.exit(3)
    if not done or res.rc != 0:
        rep = res.san()
        last = [l for l in res.out.split("\n") if l.startswith("AT ")][-1:]
        if rc_is_setup_error(res):
            raise build.BuildError("%s: %s" % (what, res.err[-2000:]))
        if check.only_san and not rep and not res.crashed():
            check.unsure("%s ended with status %s: %s" % (what, res.rc, res.err[-300:]))
            return False
        check.violation("crash:" + what, "%s ended with status %s: %s %s" % (what, res.rc, rep or res.err[-300:], last),
                        "command: %s\nstdin: %s\nstdout: %s\nstderr: %s" %
                        (" ".join(res.cmd), (res.stdin or "")[:5000], res.out[-3000:], res.err[-8000:]))
        return False
    return True


OOM_WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign"]
TRUTH = os.path.join(VERIF, "oracle", "truth.txt")


def hrun(check, binary, args, timeout=300, env=None, what=None, wrap=()):
    """Run a harness with key=value arguments and take over its report."""
    if check.late():
        check.unsure("not started: %s" % (what or args))
        return None
    cmd = list(wrap) + [binary] + ["%s=%s" % (k, v) for k, v in args.items()]
    res = run(cmd, timeout=timeout, env=env)
    harness_lines(check, res, what or os.path.basename(binary).split("-")[0] + ":" + str(args.get("mode", args.get("src", ""))))
    return res


def true_sums(xs):
    """True sums of primes for a list of x (only those the oracle knows)."""
    t = build.tool("t_truth", ["t_truth.cpp"])
    xs = sorted(set(int(x) for x in xs))
    parts = [xs[i::NPROC] for i in range(NPROC)]
    out = {}
    for r in pmap(lambda p: run([t, "truth=" + TRUTH], timeout=300, stdin="\n".join(map(str, p))) if p else None, parts):
        if r is None:
            continue
        for line in r.out.split("\n"):
            f = line.split()
            if len(f) == 2 and f[1] != "?":
                out[int(f[0])] = f[1]
    return out


def campaign(check, binary, argsets, timeout=300, env=None, what=None, workers=None, wrap=()):
    pmap(lambda a: hrun(check, binary, a, timeout, env, what, wrap), argsets, workers)


def rc_is_setup_error(res):
    return res.rc in (126, 127) or "failed to reserve" in res.err or "Shadow memory range interleaves" in res.err \
        or "unexpected memory mapping" in res.err


def main(fn, pid, level="exploration", rule=""):
    c = Check(pid, level, rule)
    try:
        fn(c)
    except build.BuildError as e:
        print("build error: %s" % e, flush=True)
        sys.exit(2)
    c.finish()
