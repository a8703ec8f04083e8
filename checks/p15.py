"""P15: counts of primes and k-tuplets."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sieve

vlib.main(sieve.body(sieve.count, sieve.count_top), "P15", "exploration",
          "(interval, kind, entry point, sieve size, threads): all short intervals below 320 (thorough 700), windows at squares of primes, powers, multiples of 30 and of sieve array spans, borders at members of constellations, long intervals for the parallel sieve, the top of the 64-bit range; counts compared with an independent sieve, a zero expected count is trivial")
