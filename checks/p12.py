"""P12: no data races."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, cli, sieve, fakecpu, xs
import p09, p13, p20
from vlib import THOROUGH, SEED

RACE = "WARNING: ThreadSanitizer"


def body(c):
    c.only_san = True
    k = 8 if THOROUGH else 1
    rng = c.rng
    S = SEED * 1000
    vg = dict(vgomp=True, extra=("-DVGOMP",))
    try:
        hs, _ = build.harness("tsan", "h_sum_v", ["h_sum.cpp"], **vg)
        hc, _ = build.harness("tsan", "h_comp_v", ["h_comp.cpp"], **vg)
        hp, _ = build.harness("tsan", "h_phi_v", ["hb_main.cpp", "hb_phi.cpp"], **vg)
        ht, _ = build.harness("tsan", "h_threads", ["h_threads.cpp"], **vg)
        app, _ = build.harness("tsan", "h_app_v", ["h_app.cpp"], kind="app", vgomp=True)
    except build.BuildError as e:
        if "undefined reference" not in str(e):
            raise
        c.unsure("the program uses a part of the OpenMP run-time library which the one for ThreadSanitizer does not provide: %s" % str(e)[-600:])
        hs = None
    hv, _ = build.harness("tsan", "h_sieve", ["h_sieve.cpp"], kind="primesieve")
    ps = build.binary(build.flavour("tsan"), "primesieve")
    env = {"OMP_NUM_THREADS": "8"}
    todo = []
    if hs:
        # the parallel algorithms and their parts
        for i in range(8):
            d = (0, 60, 300, 0)[i % 4]
            todo.append((hs, dict(algs="dr,lmo,dr1,lmop1", src="mix", n=(400 if d == 0 else 120) * k, maxx=1e9, threads="2,3,4,8,rand", div="1,rand,rand", alpha="def,rand,max", wide="0,1,3",
                                  clock="0,2,3,5,6", serial=0, delay=d)))
            todo.append((hs, dict(algs="dr,lmo", src="anchor", n=4 * k, minx=1e10, maxx=3e11, threads="4,8", div="1,rand", alpha="def,rand", wide="0,1", clock="0,2", serial=0, delay=d)))
            todo.append((hc, dict(n=(150 if d == 0 else 60) * k, maxx=1e8, wide="0,1,3", threads="2,4,8", div="1,rand")))
            # different threads, each with its own objects and calls
            for j in range(14 * k):
                todo.append((ht, dict(n=3, jobs=10, delay=(0, 0, 100)[j % 3])))
        todo += [(hp, dict(s, n=max(1, int(s["n"] * 0.03)), known=8, max=min(s.get("max", 1e12), 3e12))) for s in p13.sets(k, 0)[:10]]
        # all threads start with the same first library call
        for o in range(20):
            for j in range(2 * k):
                todo.append((ht, dict(n=1, jobs=2, ops=o)))
    # the parallel sieve
    for i in range(6):
        todo.append((hv, dict(mode="count", n=2 * k, full=1, len=2e7 * (1 + i % 3), q=3, max=1e12 if i % 2 else 1e9, add=1)))
        todo.append((hv, dict(mode="nth", n=1 * k, max=1e11, len=3e7, full=1, q=3)))
    for j, (b, s) in enumerate(todo):
        s.update(seed=S + j, truth=vlib.TRUTH, small=1e5)
    rng.shuffle(todo)
    with fakecpu.Cpus(rng, 12) as cpus:
        def one(t):
            e = dict(env)
            if t[0] == (ht if hs else None) and t[1]["seed"] % 2:
                e.update(cpus[t[1]["seed"] // 2 % len(cpus)])
            return vlib.hrun(c, t[0], t[1], 200 * k, e)
        vlib.pmap(one, todo)
    c.stage("harnesses")
    # the programs, status on
    jobs = []
    if hs:
        for i in range(400 * k):
            o, x, status = p09.common(rng)
            alg = rng.choice([a for a in p09.TOTAL if a in ("--pi", "-d", "--lmo", "-l", "--deleglise_rivat", "--deleglise_rivat_parallel1", "--lmo_parallel1")] + p09.COMP + [None] * 4)
            v = xs.logu(rng, 1e4, 3e9) if i % 10 else xs.logu(rng, 1e9, 3e10)
            a = [str(v)] + ([alg] if alg else []) + ["-s%d" % rng.randrange(0, 4), "-t%d" % rng.choice([2, 3, 4, 8])] + (["-a%.2f" % rng.uniform(1, 9)] if rng.random() < 0.4 else [])
            e = {"OMP_NUM_THREADS": "8", "VCLOCK": str(rng.choice([0, 1, 2])), "VCLOCK_SEED": str(rng.randrange(10 ** 6)), "VGOMP_DELAY": str(rng.choice([0, 0, 0, 100])),
                 "PRIMESUM_VERIF_DIVISOR": str(rng.choice([1, 10, 1000])), "PRIMESUM_VERIF_WIDE": str(rng.choice([0, 0, 1])), "VGOMP_SEED": str(i)}
            jobs.append((app, a, e, "primesum"))
    for i in range(30 * k):
        a = rng.choice([0, xs.logu(rng, 1, 1e9), xs.logu(rng, 1, 1e12)])
        o = [str(a), str(a + xs.logu(rng, 2.1e7, 8e7)), "-t%d" % rng.choice([2, 3, 4, 8])] + rng.sample(["-s%d" % (8 << rng.randrange(8)), "--time", "-c%d" % rng.randrange(1, 7), "-c123456"], 2)
        jobs.append((ps, o, {}, "primesieve"))
    for i in range(10 * k):
        jobs.append((ps, [str(xs.logu(rng, 1e6, 3e6)), str(xs.logu(rng, 1, 1e11)), "-n", "-t%d" % rng.choice([2, 4, 8])], {}, "primesieve_nth"))
    rng.shuffle(jobs)

    def run(j):
        b, args, e, what = j
        if c.late():
            return
        # few processors give other interleavings
        n = rng_cpus[len(args) * 7 % len(rng_cpus)] if len(" ".join(args)) % 3 == 0 else None
        r = vlib.run((["taskset", "-c", n] if n else []) + [b] + args, timeout=200, env=e, retry=False)
        c.case((what,) + tuple(args))
        c.count(what + "_runs")
        c.count(what + "_status_lines", r.out.count("%"))
        if r.timeout or r.rc == -9:
            return c.unsure("%s %s did not end" % (what, args))
        if vlib.rc_is_setup_error(r):
            raise build.BuildError(r.err[-500:])
        if RACE in r.err or RACE in r.out:
            c.violation("race:%s:%s" % (what, "_".join(args)[:80]), "%s %s %s: %s" % (what, args, {k: v for k, v in e.items()}, first(r.err)), r.err[:10000])
    cpu = sorted(os.sched_getaffinity(0))
    rng_cpus = ["%d" % cpu[0], ",".join(map(str, cpu[:2])), ",".join(map(str, cpu[:3]))]
    vlib.pmap(run, jobs)


def first(err):
    i = err.find(RACE)
    ls = [l.strip() for l in err[i:].split("\n") if l.strip()][:9]
    return " / ".join(ls)[:900]


if __name__ == "__main__":
    vlib.main(body, "P12", "exploration",
              "runs of all parallel algorithms, of their parts, of the parallel sieve, of the two programs with status output and of independent objects and calls in "
              "several threads (from the first call of the process on) under ThreadSanitizer, with an OpenMP run-time library made of pthreads whose work sharing "
              "orders nothing, with random delays, thread counts, virtual clocks, thresholds and CPU descriptions; a case is one call or argument list")
