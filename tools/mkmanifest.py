"""Writes MANIFEST.json for the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
HOOKS = [l.split()[0] for l in HOOKS.split("\n") if "hooks guarded" in l or "verif hooks" in l]
ORA = "run-time oracle monitoring: "
TECH = {
 "P01": ORA + "in-process and command-line runs against an independent prime-sum oracle",
 "P02": ORA + "every algorithm against an independent prime-sum oracle",
 "P03": "own OpenMP run-time with seeded schedules, virtual clocks and shrunken thresholds; result oracle",
 "P04": ORA + "sweeps of the tuning factor",
 "P05": ORA + "partial sums against summation of their definitions",
 "P06": ORA + "operator stress against arbitrary precision integers, plus address/UB sanitizers",
 "P07": ORA + "forced wide and narrow code paths compared, inputs across the width boundaries",
 "P08": ORA + "generated expressions against an exact evaluator, plus address/UB sanitizers",
 "P09": "command-line monitoring against a model of the options; status trace checker",
 "P10": "address, undefined-behaviour and leak sanitizers, valgrind memcheck on stress workloads",
 "P11": "address, undefined-behaviour and leak sanitizers, valgrind memcheck on stress workloads",
 "P12": "thread sanitizer with an instrumented OpenMP run-time, delay injection",
 "P13": ORA + "counting functions against brute force and sieve tables",
 "P14": ORA + "tables and primitives against their definitions",
 "P15": ORA + "counts on intervals against an independent sieve",
 "P16": "trace checking of random iterator histories against a cursor model",
 "P17": ORA + "generated arrays against an independent sieve",
 "P18": ORA + "n-th prime queries against an independent sieve",
 "P19": "output trace checking of printed primes against an independent sieve",
 "P20": "command-line monitoring against a model of the options",
 "P21": "allocation fault injection at every allocation, result and error-channel oracle",
 "P22": "differential monitoring of build flavours, assertions enabled",
}
NOTE = {
 "P03": "held on the seeded schedules, clocks and thread counts listed in the evidence; other schedules are not excluded",
 "P21": "each allocation index of the listed runs failed once (and failing from there on); runs are fixed small workloads",
 "P12": "no race reported on the executed schedules (happens-before detection also covers reorderings of these executions)",
}
checks = []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if not os.path.exists(os.path.join(V, f)):
        continue
    checks.append(dict(property=i, quick_cmd="python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f,
                       technique=TECH[i], level="fault_enumeration" if i == "P21" else "exploration",
                       level_note=NOTE.get(i, "the property held on every execution explored (counts and samples in the evidence); "
                                           "no claim for inputs not run; trusts the oracle in /verif and the compilers")))
have = {c["property"] for c in checks}
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         hooks=dict(guard="PRIMESUM_VERIF", enable="-DPRIMESUM_VERIF in CMAKE_CXX_FLAGS (lib/build.py)", source_commits=HOOKS),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
