"""Builds the flavours the checks need, so that a check only has to rebuild what has changed."""
import sys
import build
for n in sys.argv[1:] or ["rel", "asan", "tsan", "nolibdivide", "clang", "asserts", "noopenmp", "nopopcnt",
                          "asserts_nolibdivide", "asan_nolibdivide", "plain"]:
    try:
        print(n, build.flavour(n), flush=True)
    except build.BuildError as e:
        print(n, "failed:", str(e)[-500:], flush=True)
import scaled
for v in ("libdivide", "nolibdivide"):
    for n in ("h_sum", "h_parts"):
        print("scaled", v, scaled.harness(n, n + ".cpp", v), flush=True)
