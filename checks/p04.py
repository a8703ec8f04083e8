"""P04: the result does not depend on the tuning factor."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs, scaled
from vlib import THOROUGH, SEED


def body(c):
    d = build.flavour("rel")
    exe = build.binary(d, "primesum")
    h, _ = build.harness("rel", "h_sum", ["h_sum.cpp"])
    k = 8 if THOROUGH else 1
    sets = []
    for i in range(8):
        sets.append(dict(algs="dr,dr,dr1,lmo,lmop1,lmo3,lmo5", src="mix", n=400 * k, maxx=1e8, threads="1,rand", alpha="rand,int,max,huge,near1"))
        sets.append(dict(algs="dr,lmo", src="mix", n=110 * k, maxx=1e10, threads="1,rand", alpha="rand,rand,int,max,near1"))
        sets.append(dict(algs="dr,lmo", src="anchor", n=7 * k, minx=1e10, maxx=1e12, threads="1,rand", alpha="rand,int,max"))
        sets.append(dict(algs="dr", src="anchor", n=3 * k, minx=1e12, maxx=2e13, threads="2", alpha="rand,int,2,5"))
        sets.append(dict(algs="dr,dr1,lmo", src="random", n=600 * k, maxx=1e5, threads="1", alpha="rand,int,max,huge,near1,0,-3,0.5,0.999999,1,1.0000001"))
    # the widest range of tuning factors for the same x
    for x in (10 ** 7, 10 ** 9 + 7, 2 ** 30):
        for i in range(4 * k):
            sets.append(dict(algs="dr", src="list", xs=",".join([str(x)] * 60), alpha="rand", threads="1", lucymax=2e9, small=10))
            sets.append(dict(algs="lmo", src="list", xs=",".join([str(x)] * 40), alpha="rand", threads="1", lucymax=2e9, small=10))
    for j, s in enumerate(sets):
        s.update(seed=SEED * 1000 + j, truth=vlib.TRUTH, key="alpha")
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"}, what="alpha")
    # x beyond 64 bits: integer types of half the size
    scaled.standard(c, 8, 300, alpha="rand,int,max,near1,1,huge", key="scaled_alpha")
    # command line spellings
    rng = c.rng
    spell = ["0", "1", "-1", "0.5", "1.0", "1.5", "2", "3.14159", "10", "100", "1e3", "1e10", "1e300", "1e-300", "nan", "inf", "-inf",
             "+2", "2.5e0", "0x2", ".5", "5.", "1e-5", "0.99999999", "1.0000001", "1000000", "123456789012345678901234567890"]
    jobs = []
    for a in spell + ["%.6f" % (1 + rng.random() * 30) for _ in range(40 * k)]:
        for o in ("", "--lmo", "--deleglise_rivat_parallel1"):
            jobs.append((a, o, xs.special(rng, 1e9) if rng.random() < 0.8 else xs.logu(rng, 2, 2e10)))
    truth = vlib.true_sums([j[2] for j in jobs])

    def one(j):
        a, o, v = j
        if c.late() or (v > 1 and v not in truth):
            return
        cmd = [exe, str(v), ("-a" if a[0].isdigit() else "-a=") + a if len(a) % 2 else "--alpha=" + a] + ([o] if o else [])
        r = vlib.run(cmd, timeout=120)
        c.case(("cli", a, o, v))
        c.count("cli_runs")
        want = truth.get(v, "0")
        if r.timeout:
            c.hang("primesum", "%s does not end" % cmd[1:])
        elif r.rc == -9:
            c.unsure("ended")
        elif r.rc != 0 and not r.out.strip().isdigit() and ("Usage" in r.out + r.err or "Error" in r.err):
            # a spelling that is not accepted as a number
            c.count("refused_spellings")
            if a in ("1", "2", "1.5", "10", "100", "3.14159") or a[0].isdigit() and "." in a and len(a) == 8:
                c.violation("cli:refused:" + a, "%s refused: %r %r" % (cmd[1:], r.out[:200], r.err[:200]))
        elif r.rc != 0 or r.out != want + "\n":
            c.violation("cli:%s:%s:%d" % (a, o, v), "%s: status %s %r %r, the sum is %s" % (" ".join(r.cmd), r.rc, r.out, r.err, want))
    vlib.pmap(one, jobs)


vlib.main(body, "P04", "exploration",
          "(x, alpha, algorithm, threads) with alpha uniform in [1, x^(1/6)], integral, at and beyond both ends, huge and negative; "
          "each is compared with the true sum; distinct (x, alpha) are cases")
