"""P16: iterator histories against a cursor."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sieve

vlib.main(sieve.body(sieve.iters, sieve.iters_top), "P16", "exploration",
          "random call histories (next/prev runs, skipto with all kinds of hints, moves, free, re-initialisation) of C and C++ iterators; every returned value is compared with the cursor model; a history is non-trivial if it turns at least twice")
