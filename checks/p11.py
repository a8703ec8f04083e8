"""P11: libprimesieve runs free of memory errors and undefined behaviour."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, sieve, fakecpu, xs
import p10, p20
from vlib import THOROUGH, SEED

STRANGE = ["", "-", "--", "=", "(", ")", "((((1", "1)", "1+", "5/0", "7%0", "1<<200", "1<<-1", "-5", "--5", "~5", "0x", "0xfffffffffffffffffffffffffffffffffff", "2^64", "1e99", "9" * 400,
           "(" * 300, "1" + "+1" * 400, "-c", "-c0", "-c123456", "-c99", "-c=", "-p", "-p9", "-p0", "-p-1", "-n", "-d", "-d=", "-d1e4", "-s", "-s0", "-s-9", "-s99999999999", "-t", "-t-9", "-t99999",
           "-q", "--time", "-v", "-h", "--cpu-info", "--no-status", "--number=", "--number", "--number=100", "--size=", "--dist=1e5", "\x80", "-\x81", "--\xff=1", "1e", "%", "2**2**3"]


def scaled(sets, f, top=None):
    out = []
    for s in sets:
        s = dict(s)
        for a in ("n", "q", "add", "ops"):
            if a in s and s[a] > 2:
                s[a] = max(2, int(s[a] * f))
        if "exh" in s:
            s["exh"] = min(s["exh"], 200)
            if "around" in s:
                s["around"] = 20
        if "len" in s and s["len"] > 2e6 and top:
            s["len"] = min(s["len"], top)
        if "known" in s:
            s["known"] = 2
        out.append(s)
    return out


def body(c):
    c.only_san = True
    k = 8 if THOROUGH else 1
    rng = c.rng
    exe = build.binary(build.flavour("asan"), "primesieve")
    h = sieve.harness("asan")
    leak = p10.leak_env(c, exe, ["100"])
    pre = {"ASAN_OPTIONS": leak.get("ASAN_OPTIONS", vlib.SAN_ENV["ASAN_OPTIONS"]) + ":verify_asan_link_order=0"}
    with fakecpu.Cpus(rng, 64 * k) as cpus:
        jobs = []
        for j, fn in enumerate((sieve.count, sieve.nth, sieve.store, sieve.iters, sieve.prints)):
            f = (0.15, 0.12, 0.2, 0.3, 0.15)[j]
            for i, s in enumerate(scaled(fn(k, 5000 + 100 * j), f, 2e7)):
                e = dict(leak, OMP_NUM_THREADS="8")
                # half of them on made-up processors
                if i % 2:
                    e.update(rng.choice(cpus), **pre)
                jobs.append((s, e))
        # slow ones first: close to 2^64 every sieve needs all primes below 2^32
        tops = [sieve.count_top(k, 5600)[0], sieve.nth_top(k, 5610)[0], sieve.store_top(k, 5620)[0], sieve.iters_top(k, 5630)[0], sieve.prints_top(k, 5640)[0]]
        for s in tops:
            s.update(q=1, ops=2, up=1, len=min(s.get("len", 2000), 2000))
        tj = [(s, dict(leak, OMP_NUM_THREADS="8")) for s in (tops if THOROUGH else tops[:4])]
        rng.shuffle(jobs)
        vlib.pmap(lambda t: vlib.hrun(c, h, t[0], 250 * k, t[1]), tj + jobs)
        c.stage("harness")
        # calls that end with an error because memory runs out
        ho, _ = build.harness("asan", "h_oom_s", ["h_oom.cpp", "oom_sieve.cpp"], kind="primesieve", optional=("oom_sieve.cpp",), libs=vlib.OOM_WRAP)
        vlib.pmap(lambda i: vlib.hrun(c, ho, dict(mode=("calls", "hist", "cold")[i % 3], n=(2, 2, 1)[i % 3], cap=(20, 20, 8)[i % 3], seed=SEED * 1000 + i), 200 * k, leak), range(6 * k))
        c.stage("failing requests")
        # the program, on made-up processors and on this one
        lines = []
        for i in range(1200 * k):
            j = p20.make(rng)
            lines.append(j.args)
        for i in range(300 * k):
            lines.append(p20.broken(rng, p20.make(rng))[1])
        for i in range(300 * k):
            lines.append([rng.choice(STRANGE) if rng.random() < 0.6 else str(xs.logu(rng, 1, 1e6)) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))])
        lines = [a for a in lines if "--test" not in " ".join(a)[:-1] or "--test=" in a]
        lines += [["--cpu-info"]] * (len(cpus) * 2)
        jobs = []
        for i, a in enumerate(lines):
            e = dict(leak)
            if a == ["--cpu-info"]:
                e.update(cpus[i % len(cpus)], **pre)
            elif rng.random() < 0.3:
                e.update(rng.choice(cpus), **pre)
            # numbers alone can be large: no run of hours
            jobs.append((a, e))
        big = lambda a: any(len(t) > 12 for t in a)
        p10.program(c, exe, [j for j in jobs if not big(j[0])], "primesieve")
        p10.program(c, exe, [j for j in jobs if big(j[0])], "primesieve_long_arguments")
        c.stage("program")
        # uninitialised memory: memcheck
        hp = sieve.harness("rel")
        jobs = []
        for j, fn in enumerate((sieve.count, sieve.nth, sieve.store, sieve.iters, sieve.prints)):
            for s in rng.sample(scaled(fn(1, 5700 + 10 * j), 0.06, 1e6), 5 if not THOROUGH else 12):
                s["max"] = min(s.get("max", 1e10), 1e13)
                s.pop("full", None)
                s.pop("known", None)
                if "exh" in s:
                    s["exh"] = 40
                    if "around" in s:
                        s["around"] = 3
                jobs.append(([hp] + ["%s=%s" % t for t in s.items()], {}, "h_sieve:" + s["mode"]))
        plain = build.binary(build.flavour("plain"), "primesieve")
        jobs += [([plain] + p20.make(rng).args, {}, "primesieve") for _ in range(24 * k)]
        vlib.pmap(lambda j: None if c.late() else p10.valgrind(c, j[0], j[1], j[2]), jobs)
        c.stage("memcheck")


if __name__ == "__main__":
    vlib.main(body, "P11", "exploration",
              "runs of the libprimesieve harness (counts, n-th primes, stored arrays, iterator histories, printing; C and C++; intervals up to 2^64-1, sieve sizes, "
              "moved, cleared and abandoned objects, made-up CPU cache descriptions) and of the program (valid, broken and strange arguments) under AddressSanitizer, "
              "LeakSanitizer and UndefinedBehaviorSanitizer, and under memcheck; a case is one evaluated call or argument list")
