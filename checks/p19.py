"""P19: printed primes and k-tuplets."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sieve

vlib.main(sieve.body(sieve.prints, sieve.prints_top), "P19", "exploration",
          "(interval, kind, entry point, sieve size): the printed text is compared byte for byte with the expected list; an empty list is trivial")
