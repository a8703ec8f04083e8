"""P02: all selectable algorithms give the true sum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs
from vlib import THOROUGH, SEED

OPTS = ["", "-d", "--deleglise_rivat", "--deleglise_rivat_parallel1", "-l", "--lmo", "--lmo1", "--lmo2", "--lmo3", "--lmo4",
        "--lmo5", "--lmo_parallel1", "--pi"]


def body(c):
    d = build.flavour("rel")
    exe = build.binary(d, "primesum")
    h, _ = build.harness("rel", "h_sum", ["h_sum.cpp"])
    k = 6 if THOROUGH else 1
    slow = "lmo1,lmo2,lmo3,lmo4,lmo5"
    sets = []
    top = 100000 if THOROUGH else 9000
    for j, a in enumerate(["dr", "dr1", "lmo", "lmop1", "lmo1", "lmo2", "lmo3", "lmo4", "lmo5"]):
        sets.append(dict(algs=a, src="exh", lo=-3, hi=top, threads="1", small=2e5))
        sets.append(dict(algs=a, src="exh", lo=10 ** 6 - 100, hi=10 ** 6 + 100 * k, threads="2", small=2e6))
    for i in range(8):
        sets.append(dict(algs=slow, src="mix", n=70 * k, maxx=2e8, alpha="def,rand,max,near1,int"))
        sets.append(dict(algs="lmo2,lmo3,lmo4,lmo5", src="random", n=14 * k, minx=1e8, maxx=2e10, alpha="def,rand,max"))
        sets.append(dict(algs="lmop1,lmo,dr,dr1", src="mix", n=80 * k, maxx=3e11, threads="rand", alpha="def,rand,int"))
        sets.append(dict(algs="lmo3,lmo4,lmo5,lmop1", src="anchor", n=2 * k, minx=2.5e10, maxx=2e11 * k, threads="2"))
        sets.append(dict(algs="lmo,lmop1", src="anchor", n=5 * k, minx=1e12, maxx=2e13, threads="2"))
        sets.append(dict(algs="lmo1,lmo2,lmo3,lmo4,lmo5,lmop1,dr", src="special", n=60 * k, maxx=1e8, threads="rand"))
    for j, s in enumerate(sets):
        s.update(seed=SEED * 1000 + j, truth=vlib.TRUTH, key="alg")
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"})
    # --- command line
    rng = c.rng
    jobs = []
    for o in OPTS:
        for v in (0, 1, 2, 3, 4, 10, 100, 10 ** 6, 2 ** 31, 2 ** 32 + 1):
            jobs.append((v, o))
        for _ in range(10 * k):
            jobs.append((xs.special(rng, 1e8), o))
        # sums beyond 64 bits
        jobs.append((20000000000 + rng.randrange(5 * 10 ** 9), o) if o not in ("--lmo1",) else (10 ** 9, o))
        jobs.append((25 * 10 ** 9 + rng.randrange(10 ** 9), o) if o not in ("--lmo1", "--lmo2") else (2 * 10 ** 9, o))
    truth = vlib.true_sums([j[0] for j in jobs])

    def one(j):
        v, o = j
        if v < 2:
            t = "0"
        elif v in truth:
            t = truth[v]
        else:
            return
        if c.late():
            return
        cmd = [exe, str(v)] + ([o] if o else [])
        r = vlib.run(cmd, timeout=150)
        c.case(("cli", v, o))
        c.count("cli" + (o or "-default"))
        if r.timeout:
            c.hang("primesum" + o, "%s does not end" % cmd[1:])
        elif r.rc == -9:
            c.unsure("ended: %s" % cmd)
        elif r.rc != 0 or r.out != t + "\n" or r.err:
            c.violation("cli:%s:%d" % (o, v), "primesum %s: status %s, printed %r %r, the sum is %s" %
                        (" ".join(cmd[1:]), r.rc, r.out[:200], r.err[:200], t))
    jobs.sort(key=lambda j: -j[0])
    vlib.pmap(one, jobs)
    # refused x
    for o in OPTS:
        if "lmo" not in o and o != "-l":
            continue
        for v in ("2**63", "9223372036854775808", "1e19", "2**64+5", "1e25", "2**100"):
            r = vlib.run([exe, v, o], timeout=60)
            c.case(("refuse", v, o))
            c.count("refusals_checked")
            if r.timeout:
                c.hang("refuse" + o, "primesum %s %s does not end" % (v, o))
            elif r.rc == 0 or r.out.strip() or "Error" not in r.err:
                c.violation("refuse:%s:%s" % (o, v), "primesum %s %s: status %s %r %r, expected an error" % (v, o, r.rc, r.out, r.err))


vlib.main(body, "P02", "exploration",
          "x as for P01, each with one of the 12 selectable algorithms (and generated tuning factor and threads); "
          "compared with an independent oracle; a distinct (algorithm, x) is one case")
