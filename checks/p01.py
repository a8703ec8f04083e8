"""P01: the default algorithm gives the exact sum of the primes, on the command line and in the library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs, scaled
from vlib import THOROUGH, SEED


def body(c):
    d = build.flavour("rel")
    exe = build.binary(d, "primesum")
    h, _ = build.harness("rel", "h_sum", ["h_sum.cpp"])
    # --- library, in process
    sets = []
    k = 6 if THOROUGH else 1
    # every x in a range, by the string interface and the number interface
    top = 400000 if THOROUGH else 24000
    for i in range(8):
        sets.append(dict(algs="pistr,pi,dr", src="exh", lo=-20 + i, hi=top, stride=8, threads="1", key="pi", small=5e5))
    for i in range(8):
        sets.append(dict(algs="pi,pistr", src="mix", n=250 * k, maxx=3e9, threads="rand", key="pi"))
        sets.append(dict(algs="pi,dr,pistr", src="special", n=60 * k, maxx=5e10, threads="rand", key="pi", lucymax=6e10))
        sets.append(dict(algs="pi,pistr", src="anchor", n=40 * k, minx=1e9, maxx=2e13, threads="rand", key="pi"))
    for i in range(4):
        sets.append(dict(algs="pi", src="anchor", n=12 * k, minx=1e13, maxx=4e14, threads="4", key="pi"))
    for j, s in enumerate(sets):
        s.update(seed=SEED * 1000 + j, truth=vlib.TRUTH)
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"})
    # --- x which pass 64 bits, and sums which pass 128 bits: integer types of half the size
    scaled.standard(c, 4, 300, alpha="def", key="scaled_pi")
    # --- command line
    rng = c.rng
    x = [-10 ** 30, -5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
    x += [xs.special(rng, 1e10) for _ in range(200 * k)]
    x += [rng.randrange(10 ** 5) for _ in range(100 * k)]
    anchors = [int(l.split()[0]) for l in open(vlib.TRUTH)]
    x += [rng.choice(anchors) + rng.randrange(-1000, 1000) for _ in range(80 * k)]
    x = [v for v in set(x) if v < (10 ** 15 if not THOROUGH else 10 ** 16 + 10 ** 6)]
    big = [v for v in anchors if 9e14 < v < (1.2e15 if not THOROUGH else 2e16)]
    x += rng.sample(big, min(len(big), 3 if not THOROUGH else 15))
    truth = vlib.true_sums([v for v in x if v > 1])
    for v in x:
        if v < 2:
            truth[v] = "0"

    def one(v):
        if v not in truth or c.late():
            return
        r = vlib.run([exe, str(v) if v >= 0 else "0-%d" % -v], timeout=120)
        c.case(("cli", v), sample="primesum %d -> %s" % (v, r.out.strip()) if v > 10 ** 12 else None)
        c.count("cli_runs")
        if r.timeout:
            c.hang("primesum", "primesum %d does not end" % v, str(r.cmd))
        elif r.rc == -9:
            c.unsure("primesum %d was ended" % v)
        elif r.rc != 0 or r.out != truth[v] + "\n" or r.err:
            c.violation("cli:%d" % v, "primesum %d: status %s, printed %r %r, the sum is %s" %
                        (v, r.rc, r.out[:200], r.err[:200], truth[v]), " ".join(r.cmd))
    small = sorted(v for v in x if v < 5e13)
    vlib.pmap(one, small)
    for v in sorted(v for v in x if v >= 5e13):
        one(v)
    # values beyond 64 bits, known from the literature
    if THOROUGH:
        for v, s in (("1e19", "1156251260549368082781614413945980126"), ("1e20", "109778913483063648128485839045703833541")):
            r = vlib.run([exe, v], timeout=6000, retry=False)
            c.case(("cli", v), sample="primesum %s -> %s" % (v, r.out.strip()))
            c.count("cli_runs_beyond_64_bits")
            if r.timeout:
                c.unsure("primesum %s" % v)
            elif r.rc != 0 or r.out != s + "\n":
                c.violation("cli:" + v, "primesum %s: status %s printed %r, the sum is %s" % (v, r.rc, r.out, s))


vlib.main(body, "P01", "exploration",
          "x from exhaustive small ranges, powers/products of primes +-2, log-uniform numbers and neighbourhoods of known "
          "values; each distinct x (or x with another entry point and thread count) is one case; the sum is compared "
          "with an independent oracle (table, Lucy sieve, committed anchors + Miller-Rabin)")
