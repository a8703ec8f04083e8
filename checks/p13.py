"""P13: partial sieve function, prime counting and small n-th prime functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build
from vlib import THOROUGH, SEED


def sets(k, seed0=0):
    s = []
    for i in range(8):
        s += [dict(mode="phi_small", n=60 * k), dict(mode="phi_medium", n=6 * k, max=3e10 if i < 6 else 2e11),
              dict(mode="phi_large", n=3000 * k), dict(mode="phi_rec", n=25 * k, max=3e12 if i < 6 else 2e13),
              dict(mode="counting", n=400 * k, known=(13 if i == 0 else 11) + (k > 1))]
    for j, x in enumerate(s):
        x["seed"] = SEED * 1000 + seed0 + j
    return s


def body(c):
    k = 10 if THOROUGH else 1
    h, left = build.harness("rel", "h_phi", ["hb_main.cpp", "hb_phi.cpp"])
    vlib.campaign(c, h, sets(k), timeout=200 * k, env={"OMP_NUM_THREADS": "8"})
    if THOROUGH:
        h, left = build.harness("clang", "h_phi", ["hb_main.cpp", "hb_phi.cpp"])
        vlib.campaign(c, h, sets(3, 500), timeout=600, env={"OMP_NUM_THREADS": "8"})


if __name__ == "__main__":
    vlib.main(body, "P13", "exploration",
              "(function, x, a, threads): all a near 0, pi(sqrt x), pi(x), x for small x by brute force; medium x by an independent partial "
              "sieve; 63-bit and 127-bit x by inclusion-exclusion; many primes by the defining recursion; x < 2 or a = 0 is trivial")
