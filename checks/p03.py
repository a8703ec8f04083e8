"""P03: the result does not depend on threads, scheduling and measured times."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs, scaled
from vlib import THOROUGH, SEED


def body(c):
    d = build.flavour("rel")
    exe = build.binary(d, "primesum")
    k = 8 if THOROUGH else 1
    sets = []
    # real threads of the real run-time library, virtual clocks
    h, _ = build.harness("rel", "h_sum", ["h_sum.cpp"])
    for i in range(8):
        sets.append(dict(algs="dr,lmo", src="mix", n=120 * k, maxx=1e10, threads="2,3,5,8,16,rand", div="rand", clock="0,1,2,3,4,5,6",
                         alpha="def,def,rand,max"))
        sets.append(dict(algs="dr,lmo", src="anchor", n=8 * k, minx=1e10, maxx=3e12, threads="rand", div="1,rand", clock="0,2,5,6"))
    for j, s in enumerate(sets):
        s.update(seed=SEED * 1000 + j, truth=vlib.TRUTH, key="threads")
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"}, what="threads")
    scaled.standard(c, 4, 300, threads="2,3,5,8,16,rand", clock="0,2,3,5,6", div="1,rand", alpha="def,def,rand", key="scaled_threads")
    # every thread count for the same x
    sets = []
    for i, x in enumerate((10007 * 10007, 999983, 123456789, 10 ** 9, 64 ** 4, 30030 * 17 * 19)):
        for t in range(1, 33 if THOROUGH else 17):
            sets.append(dict(algs="dr,lmo,dr,lmo", src="list", xs="%d,%d,%d,%d" % (x, x, x + 1, x - 1), threads=str(t), div="rand", clock="2", seed=t * 100 + i,
                             small=10, truth=vlib.TRUTH, lucymax=2e9, key="threads"))
    vlib.campaign(c, h, sets, timeout=100, env={"OMP_NUM_THREADS": "64"}, what="threads")
    # schedules chosen by the seed: fibers, any order of loop chunks, fewer threads than requested
    try:
        hv, _ = build.harness("rel", "h_sum_v", ["h_sum.cpp"], vgomp=True, extra=("-DVGOMP",))
    except build.BuildError as e:
        if "undefined reference" not in str(e):
            raise
        c.unsure("the program uses a part of the OpenMP run-time library which the scheduler does not provide: %s" % str(e)[-600:])
        hv = None
    if hv:
        sets = []
        for i in range(8):
            sets.append(dict(algs="dr,lmo", src="mix", n=800 * k, maxx=1e8, threads="rand", div="rand", clock="0,2,3,5,6", alpha="def,rand,max"))
            sets.append(dict(algs="dr,lmo", src="mix", n=150 * k, maxx=5e9, threads="rand", div="rand", clock="0,2,5,6", alpha="def,def,rand"))
            sets.append(dict(algs="dr,lmo", src="anchor", n=8 * k, minx=1e10, maxx=1e12, threads="rand", div="1,rand", clock="2,5"))
        for j, s in enumerate(sets):
            s.update(seed=SEED * 1000 + 500 + j, truth=vlib.TRUTH, key="schedule")
        vlib.campaign(c, hv, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"}, what="schedules")
    # the program itself with all kinds of thread options
    rng = c.rng
    jobs = []
    for v in [xs.special(rng, 1e11) for _ in range(12 * k)] + [10 ** 12 + rng.randrange(1000) for _ in range(2)]:
        for t in rng.sample(range(1, 40), 5) + [1]:
            jobs.append((v, t))
    truth = vlib.true_sums([j[0] for j in jobs])

    def one(j):
        v, t = j
        if c.late() or (v > 1 and v not in truth):
            return
        r = vlib.run([exe, str(v), rng_opt[t % 3] % t], timeout=120, env={"OMP_NUM_THREADS": str(1 + t % 24)})
        c.case(("cli", v, t))
        c.count("cli_runs")
        want = truth.get(v, "0")
        if r.timeout:
            c.hang("primesum", "primesum %d with %d threads does not end" % (v, t))
        elif r.rc == -9:
            c.unsure("ended")
        elif r.rc != 0 or r.out != want + "\n":
            c.violation("cli:%d:%d" % (v, t), "%s: status %s %r %r, the sum is %s" % (" ".join(r.cmd), r.rc, r.out, r.err, want))
    rng_opt = ["-t%d", "--threads=%d", "-t=%d"]
    vlib.pmap(one, jobs)


vlib.main(body, "P03", "exploration",
          "x as for P01; each run has its own thread count, thread thresholds, virtual clock and (second part) seeded schedule of "
          "all parallel regions; distinct partitions of the sieve interval and distinct schedules (hash of all scheduling "
          "decisions) are counted; every run is compared with the true sum and every step of the interval partition must start "
          "where the previous one ended")
