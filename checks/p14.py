"""P14: tables and primitives agree with their definitions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build
from vlib import THOROUGH, SEED

UNITS = ["hb_tables.cpp", "hb_sieve.cpp", "hb_math.cpp", "hb_libdivide.cpp"]


def sets(k, seed0=0, scale=1.0):
    s = []
    for i in range(8):
        s += [dict(mode="pitable", n=int(300 * k * scale), max=4e6 if i else 3e7), dict(mode="factor", n=int(500 * k * scale), max=3e6 if i else 3e7),
              dict(mode="generate", n=int(400 * k * scale), max=1e6 if i else 5e6), dict(mode="bitsieve", n=int(15000 * k * scale)),
              dict(mode="wheel", n=int(1500 * k * scale)), dict(mode="tree", n=int(6000 * k * scale)), dict(mode="math", n=int(60000 * k * scale)),
              dict(mode="libdivide", n=int(60000 * k * scale))]
    for j, x in enumerate(s):
        x["seed"] = SEED * 1000 + seed0 + j
    return s


def body(c):
    k = 15 if THOROUGH else 1
    for fl, seed0, scale in (("rel", 0, 1.0), ("nopopcnt", 300, 0.3), ("clang", 600, 0.3)):
        h, left = build.harness(fl, "h_blocks", ["hb_main.cpp"] + UNITS, optional=UNITS)
        if len(left) == len(UNITS):
            raise build.BuildError("no unit compiles")
        for u in left:
            c.note("not built for %s: %s" % (fl, u))
        vlib.campaign(c, h, sets(k, seed0, scale), timeout=150 * k, env={"OMP_NUM_THREADS": "8"})


if __name__ == "__main__":
    vlib.main(body, "P14", "exploration",
              "(primitive, argument): exhaustive for small arguments, boundary values (squares, powers, residues mod 210, word limits +-1, "
              "positions up to 2^62) and random; every entry of a table is compared; each is recomputed from its definition by trial "
              "division, plain sieves or 128-bit bisection; release, no-popcnt and clang builds")
