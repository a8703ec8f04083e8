"""P07: wide-integer code paths agree with narrow ones at and beyond 64 bits."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs, scaled
import p05, p13
from vlib import THOROUGH, SEED

# sums of primes beyond the table (OEIS A046731)
KNOWN = {10 ** 17: "129408626276669278966252031311350", 10 ** 18: "12212914292949226570880576733896687", 10 ** 19: "1156251260549368082781614413945980126"}


def body(c):
    k = 8 if THOROUGH else 1
    rng = c.rng
    S = SEED * 1000
    # the 128-bit and wide-factor-table specialisations for x where everything is known
    p05.campaign(c, "wide", "1,2,3", 7000, scale=0.35)
    c.stage("forced wide components")
    h, _ = build.harness("rel", "h_sum", ["h_sum.cpp"])
    sets = []
    for i in range(8):
        sets.append(dict(algs="dr,lmo", src="mix", n=150 * k, maxx=1e10, threads="1,rand", div="1,rand", alpha="def,rand,max", wide="1,2,3", clock="0"))
        sets.append(dict(algs="dr", src="anchor", n=5 * k, minx=1e11, maxx=1e13, threads="rand", div="1", alpha="def,rand", wide="1,2,3", clock="0"))
    for j, s in enumerate(sets):
        s.update(seed=S + 7200 + j, truth=vlib.TRUTH, key="wide")
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "16"}, what="forced wide")
    c.stage("forced wide sums")
    # the whole computation for x up to 2^93 and sums up to 2^180, so to speak: integer types of half the size
    scaled.standard(c, 8, 7300, algs="dr,dr,lmo", wide="0,0,0,2,3")
    p05.wide_parts(c, 7350)
    c.stage("integer types of half the size")
    # x around 2^63, 2^64 and far beyond, against the definitions
    todo = []
    for fl in ("rel", "nolibdivide"):
        h, _ = build.harness(fl, "h_comp", ["h_comp.cpp"])
        for i in range(4 if fl == "rel" else 2):
            todo.append((h, dict(mode="wide", n=10 * k, comps="S1,S2t", small=1e7)))
            todo.append((h, dict(mode="wideeasy", n=8 * k, comps="S1,S2t,S2e", small=2e7, easyspan=0.03)))
            todo.append((h, dict(mode="wides1", n=150 * k, comps="S1", small=1e5)))
            todo.append((h, dict(mode="wides1", n=25 * k, comps="S1", small=2e6)))
        for i in range(4 if fl == "rel" else 1):
            todo.append((h, dict(mode="widep2", n=2 * k, comps="P2", small=1e6, minroot=2.9e9, maxroot=4.5e9)))
    for j, (b, s) in enumerate(todo):
        s.update(seed=S + 7400 + j, truth=vlib.TRUTH, threads="1,rand,8" if s["mode"] != "widep2" else "8", key="wide")
    rng.shuffle(todo)
    vlib.pmap(lambda t: vlib.hrun(c, t[0], t[1], 250 * k, {"OMP_NUM_THREADS": "16"}, "wide"), todo)
    c.stage("wide components")
    # the partial sieve function for sums
    h, left = build.harness("rel", "h_phi", ["hb_main.cpp", "hb_phi.cpp"])
    sets = [dict(s, n=max(1, int(s["n"] * (3 if s["mode"] == "phi_large" else 0.3)))) for s in p13.sets(k, 7600) if s["mode"] in ("phi_large", "phi_rec", "phi_medium")]
    vlib.campaign(c, h, sets, timeout=200 * k, env={"OMP_NUM_THREADS": "8"}, what="wide")
    c.stage("phi")
    # the program: sums in the hard special leaves pass 2^63 and 2^64 for a small tuning factor
    exe = build.binary(build.flavour("rel"), "primesum")
    app, _ = build.harness("rel", "h_app", ["h_app.cpp"], kind="app")
    jobs = []
    truth = {}
    anchors = [int(l.split()[0]) for l in open(vlib.TRUTH) if l[0].isdigit()]
    pick = lambda a, b: rng.choice([x for x in anchors if a <= x <= b])
    for i in range(2 * k):
        jobs.append((pick(5e13, 2e14), "1", rng.choice(["-d", "--lmo"])))
        jobs.append((pick(8e14, 1.1e15), rng.choice(["", "1.5"]), "-d"))
    jobs.append((10 ** 16, "", "-d"))
    if THOROUGH:
        jobs += [(10 ** 16, "1", "-d"), (10 ** 17, "", "-d"), (10 ** 18, "", "-d"), (10 ** 19, "", "-d"), (10 ** 18, "", "--lmo")]
    truth = vlib.true_sums([j[0] for j in jobs])
    truth.update(KNOWN)
    for x, a, o, w in [j + ("0",) for j in jobs] + [j + (rng.choice("123"),) for j in jobs[:2 * k]]:
        if c.late() or x not in truth:
            continue
        r = vlib.run([app if w != "0" else exe, str(x), o, "-t%d" % vlib.NPROC] + (["-a" + a] if a else []), timeout=200 if not THOROUGH else 7200,
                     env={"PRIMESUM_VERIF_WIDE": w})
        c.case(("cli", x, a, o, w), sample="primesum %d %s -a%s -> %s" % (x, o, a, r.out.strip()[:60]))
        c.count("cli_big_runs")
        if r.timeout or r.rc == -9:
            c.unsure("primesum %d %s -a%s did not end" % (x, o, a))
        elif r.rc != 0 or r.out.strip() != str(truth[x]):
            c.violation("cli:%d:%s" % (x, a), "primesum %d %s -a%s (forced wide code: %s): status %s %r, the prime sum is %s" % (x, o, a, w, r.rc, r.out[:200], truth[x]))
    if THOROUGH:
        # sums of two x which differ by a few primes, on both sides of 2^63 and 2^64
        for b in (2 ** 63, 2 ** 64):
            got = {}
            for x in (b - 1, b + 1000):
                r = vlib.run([exe, str(x), "-d"], timeout=7200, retry=False)
                if r.timeout or r.rc != 0:
                    c.unsure("primesum %d did not end" % x)
                    break
                got[x] = int(r.out)
            else:
                ps = build.binary(build.flavour("rel"), "primesieve")
                r = vlib.run([ps, str(b), str(b + 1000), "-p"], timeout=600)
                d = sum(map(int, r.out.split()))
                c.case(("across", b))
                if got[b + 1000] - got[b - 1] != d:
                    c.violation("across:%d" % b, "primesum %d = %d, primesum %d = %d, the primes between them add up to %d" % (b - 1, got[b - 1], b + 1000, got[b + 1000], d))
    c.stage("program")


if __name__ == "__main__":
    vlib.main(body, "P07", "exploration",
              "(function, x, y, threads, thresholds): all components and sums with the 128-bit code and the wide factor table forced for x whose value is known; "
              "components for x on both sides of 2^63 and 2^64 and up to 2^104 against their definitions, leaf by leaf, in 512-bit arithmetic; the sum version of the "
              "partial sieve function for 127-bit x; the program for x whose hard-leaf sums pass 2^64; a case without leaves is trivial")
