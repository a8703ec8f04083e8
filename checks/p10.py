"""P10: primesum runs free of memory errors and undefined behaviour."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, cli, xs
import p13, p14
from vlib import THOROUGH, SEED

LEAKS = {"ASAN_OPTIONS": vlib.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}


def leak_env(c, exe, args):
    """LeakSanitizer needs permissions which are not granted everywhere."""
    r = vlib.run([exe] + args, env=LEAKS, timeout=60)
    if "fatal error" in r.err or "LeakSanitizer has encountered" in r.err:
        c.note("LeakSanitizer does not run here")
        return {}
    return LEAKS


def valgrind(c, cmd, env, what, leaks=True):
    """A run under memcheck."""
    w = ["valgrind", "-q", "--error-exitcode=97", "--num-callers=20", "--main-stacksize=8388608"]
    if leaks:
        w += ["--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite"]
    r = vlib.run(w + cmd, timeout=250 * (6 if THOROUGH else 1), env=env)
    c.count("memcheck_runs")
    c.case(("memcheck",) + tuple(cmd[1:]))
    if r.timeout or r.rc == -9:
        c.unsure("memcheck run did not end: %s" % cmd)
    elif "==" in r.err and (r.rc == 97 or "Process terminating" in r.err):
        m = [l for l in r.err.split("\n") if l.startswith("==")][:14]
        c.violation("memcheck:" + what, "%s: %s" % (" ".join(cmd[1:])[:200], " / ".join(l.split("== ", 1)[-1] for l in m)[:1200]), r.err[:8000])
    return r


def program(c, exe, jobs, what):
    """Runs of a program built with the sanitizers: (args, env)."""
    def one(j):
        args, env = j
        if c.late():
            return
        r = vlib.run([exe] + args, timeout=200, env=env, retry=False)
        c.case((what,) + tuple(args))
        c.count(what)
        if r.timeout or r.rc == -9:
            c.unsure("%s %s did not end" % (what, args))
        elif r.crashed() or (r.san() and r.rc not in (0, 1)):
            c.violation("crash:%s:%s" % (what, "_".join(args)[:80].replace(" ", "_")), "%s %s: status %s %s" % (what, args, r.rc, r.san()), r.err[:10000])
    vlib.pmap(one, jobs)


def harnesses(c, fl, k, seed0):
    S = SEED * 1000 + seed0
    env = {"OMP_NUM_THREADS": "16"}
    sets = []
    h, _ = build.harness(fl, "h_sum", ["h_sum.cpp"])
    for i in range(4):
        sets.append((h, dict(algs="dr,lmo,dr1,lmop1", src="mix", n=350 * k, maxx=1e9, threads="1,rand", div="1,rand", alpha="def,rand,max,huge,near1,int", wide="0", clock="0,2,5")))
        sets.append((h, dict(algs="dr,lmo", src="mix", n=200 * k, maxx=3e8, threads="rand", div="rand", alpha="def,rand", wide="1,3", clock="0,2")))
        sets.append((h, dict(algs="lmo1,lmo2,lmo3,lmo4,lmo5", src="mix", n=80 * k, maxx=2e7, threads="1", alpha="def,rand")))
        sets.append((h, dict(algs="dr,lmo,pi", src="anchor", n=6 * k, minx=1e10, maxx=3e11, threads="rand", div="1,rand", alpha="def,rand")))
    sets.append((h, dict(algs="dr,lmo", src="exh", lo=0, hi=3000 * k, threads="1,2", alpha="def,rand", div="1,rand")))
    h, _ = build.harness(fl, "h_comp", ["h_comp.cpp"])
    for i in range(4):
        sets.append((h, dict(n=250 * k, maxx=1e8, wide="0,1,3", threads="1,rand", div="1,rand")))
        sets.append((h, dict(n=30 * k, maxx=5e10, minx=1e8, wide="0,1", threads="rand", div="1,rand")))
    for j, (b, s) in enumerate(sets):
        s.update(seed=S + j, truth=vlib.TRUTH, small=1e6)
    h, _ = build.harness(fl, "h_phi", ["hb_main.cpp", "hb_phi.cpp"])
    sets += [(h, dict(s, n=max(1, int(s["n"] * 0.05)), known=9, max=min(s.get("max", 1e12), 3e12))) for s in p13.sets(k, seed0)[:20]]
    h, left = build.harness(fl, "h_blocks", ["hb_main.cpp"] + p14.UNITS, optional=p14.UNITS)
    sets += [(h, s) for s in p14.sets(k, seed0, 0.08)[:(24 if fl == "asan" else 12)]]
    vlib.pmap(lambda t: vlib.hrun(c, t[0], t[1], 200 * k, env), sets)


def body(c):
    c.only_san = True
    k = 8 if THOROUGH else 1
    rng = c.rng
    # component and integration harnesses under AddressSanitizer and UndefinedBehaviorSanitizer
    harnesses(c, "asan", k, 0)
    c.stage("asan harnesses")
    harnesses(c, "asan_nolibdivide", max(1, k // 2), 300)
    c.stage("asan_nolibdivide harnesses")
    # the program with all kinds of arguments, with leak detection
    exe = build.binary(build.flavour("asan"), "primesum")
    exe2 = build.binary(build.flavour("asan_nolibdivide"), "primesum")
    app, _ = build.harness("asan", "h_app", ["h_app.cpp"], kind="app")
    leak = leak_env(c, exe, ["100"])
    for b, n, what in ((exe, 2500 * k, "primesum"), (exe2, 600 * k, "primesum"), (app, 1000 * k, "primesum_any_time")):
        jobs = []
        for a in cli.lines(rng, n):
            e = dict(leak, OMP_NUM_THREADS=str(rng.choice([1, 2, 4, 8, 16])))
            if b == app:
                e.update(VCLOCK=str(rng.choice([1, 2])), VCLOCK_SEED=str(rng.randrange(10 ** 6)), PRIMESUM_VERIF_DIVISOR=str(rng.choice([1, 30, 1000, 100000])),
                         PRIMESUM_VERIF_WIDE=str(rng.choice([0, 0, 1, 3])))
                a = a + ["-s"]
            jobs.append((a, e))
        program(c, b, jobs, what)
        c.stage(what)
    # calls that end with an error because memory runs out
    ho, _ = build.harness("asan", "h_oom_p", ["h_oom.cpp", "oom_sum.cpp", "oom_parts.cpp"], optional=("oom_sum.cpp", "oom_parts.cpp"), libs=vlib.OOM_WRAP)
    vlib.pmap(lambda i: vlib.hrun(c, ho, dict(mode=("calls", "calls", "cold")[i % 3], n=1, cap=(20, 20, 8)[i % 3], seed=SEED * 1000 + i), 200 * k, leak), range(6 * k))
    c.stage("failing requests")
    # large numbers: the ordinary leaves, easy leaves and trivial leaves beyond 64 bits are quick
    big = []
    for v in [10 ** 19, 2 ** 63, 2 ** 63 - 1, 2 ** 64 + 1] + ([10 ** 20, 10 ** 21, 10 ** 22] if THOROUGH else []):
        for o in ("--S1", "--S2_trivial") + (("--S2_easy", "--P2") if THOROUGH else ()):
            big.append(([str(v), o, "-a%d" % rng.randrange(1, 5 if o != "--P2" else 100), "-t8"], dict(leak, OMP_NUM_THREADS="8")))
    program(c, exe, big, "primesum_big")
    c.stage("big")
    # uninitialised memory: memcheck
    rel = build.binary(build.flavour("plain"), "primesum")
    clk, _ = build.harness("rel", "h_app", ["h_app.cpp"], kind="app")
    jobs = []
    for o in ("--pi", "-d", "--lmo", "--deleglise_rivat_parallel1", "--lmo_parallel1", "--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5", "--P2", "--S1", "--S2_trivial", "--S2_easy", "--S2_hard"):
        for i in range(4 * k):
            top = {"--lmo1": 1e6, "--lmo2": 1e7, "--lmo3": 1e7, "--lmo4": 1e7, "--lmo5": 1e7}.get(o, 2e8 if i else 3e9)
            a = [str(xs.logu(rng, top / 50, top)), o, "-t%d" % rng.choice([1, 2, 3, 8])] + (["-s"] if rng.random() < 0.5 else []) + (["-a%.3f" % rng.uniform(1, 10)] if rng.random() < 0.5 else [])
            b = rng.choice([rel, clk])
            jobs.append(([b] + a, {"OMP_NUM_THREADS": "8", "VCLOCK": str(rng.choice([0, 1, 2])), "VCLOCK_SEED": str(rng.randrange(1000))}))
    jobs += [([rel] + a, {"OMP_NUM_THREADS": "4"}) for a in cli.lines(rng, 40 * k, 1e6)]
    # the load balancer has time to change its mind
    jobs += [([rel, str(xs.logu(rng, 5e9, 2e10)), o, "-t%d" % t], {"OMP_NUM_THREADS": "8"}) for o, t in (("--S2_hard", 1), ("--lmo_parallel1", 2), ("-d", 3))]
    vlib.pmap(lambda j: None if c.late() else valgrind(c, j[0], j[1], "primesum"), jobs)


if __name__ == "__main__":
    vlib.main(body, "P10", "exploration",
              "runs of harnesses (algorithms, partial sums, tables, primitives, partial sieve functions; random x, alpha, threads, thresholds, "
              "virtual time, forced wide code paths) and of the program (random, malformed and extreme arguments) built with AddressSanitizer, "
              "UndefinedBehaviorSanitizer (and float conversions) and libstdc++ assertions, with leak detection, in two build configurations; "
              "runs under memcheck for uninitialised memory; a case is one evaluated (function, arguments)")
