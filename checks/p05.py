"""P05: each partial sum equals its definition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs, scaled
from vlib import THOROUGH, SEED


def campaign(c, key, wides="0", seed0=0, flavours=("rel", "nolibdivide"), scale=1.0):
    k = (8 if THOROUGH else 1) * scale
    todo = []
    for fl in flavours:
        h, _ = build.harness(fl, "h_comp", ["h_comp.cpp"])
        sets = []
        f = 1.0 if fl == "rel" else 0.5
        for i in range(8):
            sets.append(dict(n=int(250 * k * f), maxx=1e8))
            sets.append(dict(n=int(120 * k * f), maxx=1e10, minx=1e6))
            sets.append(dict(n=int(20 * k * f), maxx=2e11, minx=1e9))
            sets.append(dict(n=int(300 * k * f), maxx=3e4))
            if i < 4:
                sets.append(dict(n=max(1, int(3 * k * f)), maxx=3e12, minx=1e11, maxz=2e7, comps="S1,S2t,S2e,S2h"))
        for j, s in enumerate(sets):
            s.update(seed=SEED * 1000 + seed0 + j, truth=vlib.TRUTH, threads="1,rand", div="1,rand", wide=wides, key=key)
        todo += [(h, s) for s in sets]
    vlib.pmap(lambda t: vlib.hrun(c, t[0], t[1], 200 * (8 if THOROUGH else 1), {"OMP_NUM_THREADS": "16"}, "components"), todo)


def wide_parts(c, seed0):
    """Partial sums for x which pass 64 bits and sums which pass 128 bits, with integer types of half the size."""
    k = 8 if THOROUGH else 1
    sets = []
    for i in range(8):
        sets.append(dict(n=100 * k, minx=1e6, maxx=1e10))
        sets.append(dict(n=40 * k, minx=1e9, maxx=1e12))
        sets.append(dict(n=6 * k, minx=1e11, maxx=1e13))
    for j, s in enumerate(sets):
        s["seed"] = SEED * 1000 + seed0 + j
    scaled.parts(c, sets, timeout=200 * k)


def body(c):
    d = build.flavour("rel")
    exe = build.binary(d, "primesum")
    campaign(c, "comp")
    wide_parts(c, 300)
    # the command line: partial sums for the same x and alpha recombine to the prime sum, and equal the definition
    h, _ = build.harness("rel", "h_comp", ["h_comp.cpp"])
    rng = c.rng
    vals = []
    for _ in range(40 * (8 if THOROUGH else 1)):
        x = xs.special(rng, 1e11) if rng.random() < 0.6 else xs.logu(rng, 10, 1e12)
        # a y of an integral tuning factor is computed the same way everywhere
        if x < 8:
            continue
        a = rng.randrange(1, max(2, int(x ** (1 / 6.0))))
        vals.append((x, a))
    vals += [(10 ** 13, 5), (2 * 10 ** 13 + 1, 3)]
    truth = vlib.true_sums([v[0] for v in vals])
    ys = []
    for x, a in vals:
        r3 = int(round(x ** (1 / 3.0)))
        while r3 ** 3 > x:
            r3 -= 1
        while (r3 + 1) ** 3 <= x:
            r3 += 1
        ys.append(r3 * a)
    ysum = vlib.true_sums(ys)

    def one(i):
        x, a = vals[i]
        y = ys[i]
        if x not in truth or c.late():
            return
        got = {}
        for o in ("--P2", "--S1", "--S2_trivial", "--S2_easy", "--S2_hard"):
            r = vlib.run([exe, str(x), o, "-a%d" % a, "-t%d" % (1 + i % 5)], timeout=120)
            if r.timeout:
                c.hang("primesum" + o, "%s does not end" % r.cmd)
                return
            if r.rc == -9:
                return
            try:
                got[o] = int(r.out)
            except ValueError:
                got[o] = None
            if r.rc != 0 or got[o] is None or r.err:
                c.violation("cli:%s:%d" % (o, x), "%s: status %s %r %r" % (" ".join(r.cmd), r.rc, r.out[:300], r.err[:300]))
                return
        s = got["--S1"] + got["--S2_trivial"] + got["--S2_easy"] + got["--S2_hard"] + int(ysum.get(y, 0)) - 1 - got["--P2"]
        c.case(("cli", x, a), sample="primesum %d -a%d: %s" % (x, a, got) if x > 1e9 else None)
        c.count("cli_recombined")
        if s != int(truth[x]):
            c.violation("recombine:%d:%d" % (x, a), "x=%d alpha=%d y=%d: partial sums %s recombine to %d, the prime sum is %s" %
                        (x, a, y, got, s, truth[x]))
    vlib.pmap(one, range(len(vals)))


if __name__ == "__main__":
    vlib.main(body, "P05", "exploration",
              "(x, y) with y from cbrt(x) to sqrt(x) and x special or log-uniform up to 3e12; every component is compared with the "
              "sum over its leaves computed from the definition; a component with at least one leaf is a non-trivial case")
