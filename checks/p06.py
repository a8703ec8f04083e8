"""P06: 256-bit integers are exact modulo 2^256."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build
from vlib import THOROUGH, SEED


def body(c):
    k = 20 if THOROUGH else 1
    h, _ = build.harness("rel", "h_int256", ["h_int256.cpp"])
    a, _ = build.harness("asan", "h_int256", ["h_int256.cpp"])
    cl, _ = build.harness("clang", "h_int256", ["h_int256.cpp"])
    jobs = []
    for i in range(8):
        jobs.append((h, dict(n=300000 * k, seed=SEED * 1000 + i)))
        jobs.append((a, dict(n=25000 * k, seed=SEED * 1000 + 100 + i)))
        if i < 4:
            jobs.append((cl, dict(n=200000 * k, seed=SEED * 1000 + 200 + i)))
    vlib.pmap(lambda j: vlib.hrun(c, j[0], j[1], 120 * k, what="int256"), jobs)


vlib.main(body, "P06", "exploration",
          "pairs of operands: limbs from boundary values, runs of ones, powers of two and ten +-1, random widths, both signs, equal, "
          "negated and adjacent pairs; every operator and every built-in operand type on each pair, against arbitrary precision "
          "integers (boost cpp_int), in gcc, clang and address+undefined-behaviour-sanitizer builds; each pair is a case")
