"""P18: n-th prime search."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sieve

vlib.main(sieve.body(sieve.nth, sieve.nth_top), "P18", "exploration",
          "(n, start, entry point, sieve size, threads) with both directions, n = 0, distances from 1 to 1e9, results at window borders, impossible requests; compared with an independent sieve and published values")
