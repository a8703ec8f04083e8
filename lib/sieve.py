"""Workloads of the libprimesieve harness h_sieve.cpp, by property."""
import vlib, build, fakecpu
from vlib import SEED, THOROUGH


def harness(fl="rel"):
    return build.harness(fl, "h_sieve", ["h_sieve.cpp"], kind="primesieve")[0]


def number(sets, seed0):
    for j, s in enumerate(sets):
        s.setdefault("seed", SEED * 1000 + seed0 + j)
    return sets


def count(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="count", exh=700 if k > 1 else 320, lo=i, stride=8, n=0, add=0),
              dict(mode="count", n=90 * k, max=1e13), dict(mode="count", n=60 * k, max=1e16, len=2e6),
              dict(mode="count", n=200 * k, max=1e10, len=3e4, q=8),
              dict(mode="count", n=12 * k, max=2e18, len=1e6, q=6, add=2)]
        # long intervals, which the parallel sieve splits
        s += [dict(mode="count", n=3 * k, full=1, len=3e7 * (1 + i % 4), q=4, max=1e12 if i % 2 else 1e14, add=2)]
    return number(s, seed0)


def count_top(k, seed0=0):
    return number([dict(mode="count", n=1, top=1, len=l, q=4 * k, full=i & 1) for i, l in enumerate((1e5, 1e6, 2e6, 2e7, 3e7, 5e7))], seed0)


def nth(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="nth", n=60 * k, max=1e12), dict(mode="nth", n=30 * k, max=1e15, q=10), dict(mode="nth", n=250 * k, max=1e9, len=1e4, q=10),
              dict(mode="nth", n=4 * k, max=1e18, len=1e6, q=4), dict(mode="nth", n=3 * k, max=1e12, len=5e7, full=1, q=6),
              dict(mode="nth", exh=3000 if k == 1 else 9000, m=60, lo=i, stride=8)]
    s += [dict(mode="nth", n=0, known=3 if k == 1 else 4)]
    return number(s, seed0)


def nth_top(k, seed0=0):
    return number([dict(mode="nth", n=1, top=1, len=l, q=3 * k, full=i & 1) for i, l in enumerate((4e3, 1e6, 1e5, 3e6))], seed0)


def store(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="store", n=150 * k), dict(mode="store", n=300 * k, max=1e6, len=1e5), dict(mode="store", n=300 * k, max=300, len=300),
              dict(mode="store", n=20 * k, max=1e17, q=8), dict(mode="store", exh=1200 if k == 1 else 2400, lo=i, stride=8)]
    return number(s, seed0)


def store_top(k, seed0=0):
    return number([dict(mode="store", n=1, top=1, q=3 * k, full=i & 1, len=(3e5, 1e6)[i & 1]) for i in range(6)], seed0)


def iters(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="iter", n=200 * k), dict(mode="iter", n=400 * k, low=1), dict(mode="iter", n=150 * k, max=1e10, run=50000, ops=100),
              dict(mode="iter", n=3 * k, max=1e17, ops=25, run=300), dict(mode="iter", n=600 * k, max=1e7, ops=25, run=600), dict(mode="iter", exh=6000 * k, lo=i, stride=8, around=150 * k)]
    return number(s, seed0)


def iters_top(k, seed0=0):
    return number([dict(mode="iter", n=1, top=1, ops=5 * k) for i in range(6)] + [dict(mode="iter", n=1, top=1, up=1, ops=6 * k) for i in range(8)], seed0)


def prints(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="print", n=100 * k), dict(mode="print", n=400 * k, max=1e6, len=3e3), dict(mode="print", n=12 * k, max=1e17, q=6),
              dict(mode="print", n=5 * k, max=1e12, len=1e7, q=6), dict(mode="print", exh=160 if k == 1 else 320, lo=i, stride=8)]
    return number(s, seed0)


def prints_top(k, seed0=0):
    return number([dict(mode="print", n=1, top=1, q=3 * k, len=l, full=i & 1) for i, l in enumerate((300, 1e6, 1e5, 4e5))], seed0)


def body(fn, top):
    def run(c):
        k = 8 if THOROUGH else 1
        env = {"OMP_NUM_THREADS": "8"}
        sets = fn(k)
        h = harness("rel")
        # a third of them on made-up processors, whose cache sizes the sieve adapts to
        with fakecpu.Cpus(c.rng, 16 * k) as cpus:
            vlib.pmap(lambda t: vlib.hrun(c, h, t[1], 200 * k, dict(env, **cpus[t[0] // 3 % len(cpus)]) if t[0] % 3 == 2 else env), list(enumerate(sets)))
        # close to 2^64: up to 2 GB each
        vlib.campaign(c, harness("rel"), top(k), timeout=180 * k, env=env, workers=7)
        vlib.campaign(c, harness("clang"), fn(max(1, k // 2), 400)[::5 if not THOROUGH else 1], timeout=200 * k, env=env)
    return run
