"""P22: every build configuration computes the same results."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, cli, xs, sieve
import p09, p11, p14, p20
from vlib import THOROUGH, SEED

FL = ["rel", "plain", "nolibdivide", "nopopcnt", "noopenmp", "clang", "asserts", "asserts_nolibdivide"]
SIEVE = ["rel", "plain", "nopopcnt", "clang", "asserts", "asserts_nolibdivide"]


def norm(out):
    """What is printed except for progress, times and the number of threads."""
    out = re.sub(r"Status: [^%\r\n]*%", "", out)
    out = re.sub(r"Seconds: [-+.0-9einfa]+", "", out)
    out = re.sub(r"(?im)^[^\r\n]*threads? *= .*$", "", out)
    out = re.sub(r"[^\r\n]*%[ ]*(?=[\r\n]|$)", "", out)
    return re.sub(r"[\r\n\s]+", "\n", out).strip()


def primesum_lines(rng, k):
    out = []
    for a in cli.lines(rng, 500 * k, 1e9):
        out.append((a, {}))
    # larger numbers: the parts in which the builds differ
    for i in range(250 * k):
        o = rng.choice(["--S2_easy"] * 4 + ["--S2_hard", "--S2_trivial", "--P2", "--S1", "-d", "--lmo", "--lmo_parallel1", "--pi"])
        top = {"--S2_easy": 1e15, "--S2_trivial": 1e16, "--S1": 1e18, "--lmo": 3e10, "--lmo_parallel1": 3e10, "--pi": 1e10, "-d": 3e11,
               "--S2_hard": 3e11, "--P2": 3e11}[o]
        x = xs.logu(rng, top / 1e5, top) if rng.random() < 0.7 else xs.special(rng, min(top, 1e18))
        if x > top:
            x = xs.logu(rng, top / 1e5, top)
        al = "%.3f" % rng.uniform(1, 1.1 + 1.5 * rng.random() ** 3)
        a = [str(max(x, 10)), o] + ([] if rng.random() < 0.3 and x < 3e11 else ["-a" + al])
        out.append((a, {"PRIMESUM_VERIF_WIDE": str(rng.choice([0, 0, 1, 2, 3])), "PRIMESUM_VERIF_DIVISOR": str(rng.choice([1, 1, 100, 10000]))}))
    # around 2^62 .. 2^66
    for i in range(40 * k):
        e = rng.choice([62, 63, 64, 65, 66])
        x = 2 ** e + rng.randrange(-5, 6) if rng.random() < 0.5 else rng.randrange(2 ** 61, 2 ** e)
        o = rng.choice(["--S2_easy", "--S1", "--S2_trivial"])
        out.append(([str(x), o, "-a%.3f" % (rng.uniform(1, 1.01) if o == "--S2_easy" else rng.uniform(1, 1.1))], {}))
    return out


def body(c):
    rng = c.rng
    k = 8 if THOROUGH else 1
    d = dict(zip(FL, vlib.pmap(build.flavour, FL, 3)))
    c.stage("builds")
    jobs = [("primesum", a, e) for a, e in primesum_lines(rng, k)]
    for i in range(500 * k):
        jobs.append(("primesieve", p20.make(rng).args, {}))
    for i in range(80 * k):
        jobs.append(("primesieve", p20.broken(rng, p20.make(rng))[1], {}))
    for i in range(60 * k):
        a = [rng.choice(p11.STRANGE) for _ in range(rng.choice([1, 2, 3]))]
        # (numbers alone can make runs of hours)
        if not any(len(t) > 9 or "test" in t or t.startswith(("-n", "--n", "-t", "--t")) for t in a):
            jobs.append(("primesieve", a, {}))
    rng.shuffle(jobs)

    def one(j):
        prog, args, env = j
        if c.late():
            return
        fl = FL if prog == "primesum" else SIEVE
        env = dict(env, OMP_NUM_THREADS="4")
        base = None
        for f in fl:
            if "plain" == f and any(v not in ("0", "1") for v in env.values() if v != "4"):
                continue      # has no hooks
            r = vlib.run([build.binary(d[f], prog)] + args, timeout=150, env=env)
            what = "%s %s %s" % (prog, args, env)
            key = "%s:%s:%s" % (prog, f, "_".join(args)[:60])
            c.count("runs_" + f)
            if r.rc == -9 and not r.timeout:
                c.unsure("%s was ended from outside" % what)
                continue
            if r.timeout:
                if base is None:
                    c.unsure("%s takes too long (build %s)" % (what, f))
                else:
                    c.hang(key, "%s: build %s gives %s, build %s does not end" % (what, name, str(base)[:300], f))
                return
            if vlib.rc_is_setup_error(r):
                raise build.BuildError(r.err[-500:])
            if "Assertion" in r.err or r.rc < 0:
                c.violation("assert:" + key, "%s, build %s: status %s %s" % (what, f, r.rc, r.err[-500:]), r.err[-3000:])
                continue
            got = (r.rc, norm(r.out), r.err if "threads" not in r.err else "")
            if base is None:
                base, name = got, f
            elif got != base:
                a, b = short(base, got)
                c.violation("differs:" + key, "%s: build %s gives %s, build %s gives %s" % (what, name, a, f, b))
        c.case((prog,) + tuple(args) + tuple(sorted(env.items())))
        c.count(prog + "_lines")
    vlib.pmap(one, jobs)
    c.stage("programs")
    # the parts in which the builds differ, against the same oracle
    todo = []
    hb = {}

    def compile_(f):
        hb[f] = (build.harness(f, "h_sum", ["h_sum.cpp"])[0], build.harness(f, "h_comp", ["h_comp.cpp"])[0],
                 build.harness(f, "h_blocks", ["hb_main.cpp"] + p14.UNITS, optional=p14.UNITS)[0],
                 build.harness(f, "h_sieve", ["h_sieve.cpp"], kind="primesieve")[0])
    vlib.pmap(compile_, FL[2:], 3)
    c.stage("harness builds")
    for n, f in enumerate(FL[2:]):
        hs, hc, hblk, hsv = hb[f]
        s = []
        for i in range(3):
            s += [(hs, dict(algs="dr,lmo,dr1,lmop1", src="mix", n=500 * k, maxx=3e9, threads="1,rand", div="1,rand", alpha="def,rand,max,near1,int", wide="0,1,3", clock="0,2,5")),
                  (hs, dict(algs="dr,lmo,pi", src="anchor", n=8 * k, minx=1e10, maxx=1e12, threads="rand", div="1,rand", alpha="def,rand", wide="0,1")),
                  (hc, dict(n=250 * k, maxx=1e8, wide="0,1,2,3", threads="1,rand", div="1,rand")),
                  (hc, dict(mode="wideeasy", n=6 * k, easyspan=0.02, wide="0,1", threads="1,rand", div="1,rand"))]
        s.append((hs, dict(algs="dr,lmo", src="exh", lo=0, hi=4000 * k, threads="1,2", alpha="def,rand", div="1,rand")))
        for j, (b, a) in enumerate(s):
            a.update(seed=SEED * 1000 + n * 100 + j, truth=vlib.TRUTH, small=1e7 if a.get("mode") else 1e6, key="build_" + f)
        s += [(hblk, a) for a in p14.sets(1, 900 + 50 * n, 0.1 * k)[:16]]
        for fn in (sieve.count, sieve.store, sieve.iters):
            s += [(hsv, a) for a in p11.scaled(fn(1, 7000 + 100 * n), 0.15 * k, 2e7)[:8]]
        todo += [(b, a, f) for b, a in s]
    rng.shuffle(todo)
    vlib.pmap(lambda t: vlib.hrun(c, t[0], t[1], 200 * k, {"OMP_NUM_THREADS": "8"}, what="%s:%s" % (t[2], os.path.basename(t[0]).split("-")[0])), todo)
    c.stage("harnesses")


def short(a, b):
    def line(x, y):
        if x[0] != y[0]:
            return "status %s" % x[0]
        u, v = x[1].split("\n"), y[1].split("\n")
        for p, q in zip(u, v):
            if p != q:
                return "%r" % p[:200]
        return "%d lines, errors %r" % (len(u), x[2][:200])
    return line(a, b), line(b, a)


if __name__ == "__main__":
    vlib.main(body, "P22", "exploration",
              "argument lists of both programs, each run by the builds with and without libdivide, POPCNT, OpenMP, optimisation and assertions, by gcc and clang "
              "(8 builds of primesum, 6 of primesieve), outputs and status compared; the algorithms, partial sums, tables and sieves of each of these builds "
              "against the oracle; a case is one argument list or one evaluated call")
