"""P17: arrays of primes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sieve

vlib.main(sieve.body(sieve.store, sieve.store_top), "P17", "exploration",
          "(interval or n and start, element type, interface): every element of the array is compared with an independent sieve; requests that do not fit must be refused; an empty array is trivial")
