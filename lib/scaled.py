"""primesum with integer types of half the size (see harness/scaled/scaled_types.hpp).

A copy of /repo's current sources is made in which the names of the integer types
are replaced; it is compiled together with a harness.  The code of the bit sieve,
which works on 64-bit words whatever the size of the numbers is, keeps its types,
as do the calculator and primesieve.  If a tree cannot be translated or compiled
this way there is no scaled program, and nothing is concluded from that.
"""
import hashlib, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from build import BUILD, NPROC, REPO, VERIF

KEEP = {"BitSieve.cpp", "BitSieve.hpp", "popcnt.hpp", "PiTable.cpp", "PiTable.hpp", "libdivide.h", "calculator.hpp", "SumBits.hpp"}
SKIP = {"main.cpp", "cmdoptions.cpp", "cmdoptions.hpp", "help.cpp", "test.cpp"}
TYPES = {"int256_t": "w256_t", "int128_t": "w128_t", "uint128_t": "uw128_t", "int64_t": "w64_t", "uint64_t": "uw64_t", "int32_t": "w32_t",
         "uint32_t": "uw32_t", "uint16_t": "uw16_t", "__int128_t": "w128_t", "__uint128_t": "uw128_t",
         "INT64_MAX": "INT32_MAX", "UINT64_MAX": "UINT32_MAX", "INT32_MAX": "INT16_MAX", "UINT32_MAX": "UINT16_MAX", "UINT16_MAX": "UINT8_MAX",
         "INT64_MIN": "INT32_MIN"}
WORD = re.compile(r"\b(%s)\b(?!\.hpp)" % "|".join(sorted(TYPES, key=len, reverse=True)))
HERE = os.path.join(VERIF, "harness", "scaled")


def translate(out, variant):
    skip = SKIP | ({"S2_easy.cpp"} if variant == "libdivide" else {"S2_easy_libdivide.cpp"})
    srcs = []
    for top in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f in skip or not f.endswith((".cpp", ".hpp", ".h")):
                    continue
                p = os.path.join(root, f)
                o = os.path.join(out, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                if f in ("int128_t.hpp", "int256_t.hpp"):
                    shutil.copy(os.path.join(HERE, f), o)
                    continue
                with open(p) as fh:
                    s = fh.read()
                if f not in KEEP:
                    s = '#include "scaled_types.hpp"\n#line 1\n' + WORD.sub(lambda m: TYPES[m.group(1)], s)
                    if top == "src" and f != "primesum.cpp":
                        s = re.sub(r"\bget_max_x\b", "scaled_max_x", s)
                elif f == "calculator.hpp":
                    with open(os.path.join(HERE, "calculator_tail.hpp")) as fh:
                        s += fh.read()
                with open(o, "w") as fh:
                    fh.write(s)
                if f.endswith(".cpp"):
                    srcs.append(o)
    shutil.copy(os.path.join(HERE, "scaled_types.hpp"), os.path.join(out, "include"))
    return srcs


def harness(name, source, variant="libdivide"):
    """Compile a harness with the scaled sources; None if that does not work."""
    lib = build._lib(build.flavour("rel"))
    hdir = os.path.join(VERIF, "harness")
    h = hashlib.sha1()
    for p in [os.path.join(hdir, source), os.path.join(VERIF, "lib", "scaled.py")] + \
            [os.path.join(hdir, x) for x in sorted(os.listdir(hdir)) if x.endswith(".hpp")] + [os.path.join(HERE, x) for x in sorted(os.listdir(HERE))]:
        with open(p, "rb") as fh:
            h.update(fh.read())
    d = os.path.join(BUILD, "scaled-%s" % build.repo_hash(), variant)
    out = os.path.join(d, "%s-%s" % (name, h.hexdigest()[:10]))
    with build.Lock(os.path.join(BUILD, "locks", "scaled-" + variant)):
        if os.path.exists(out):
            return out
        if os.path.exists(out + ".failed"):
            return None
        build._prune("scaled", os.path.dirname(d))
        try:
            tag = "lib-" + hashlib.sha1(open(os.path.join(VERIF, "lib", "scaled.py"), "rb").read() +
                                        b"".join(open(os.path.join(HERE, x), "rb").read() for x in sorted(os.listdir(HERE)))).hexdigest()[:10]
            t = os.path.join(d, tag)
            inc = ["-I" + os.path.join(t, "include"), "-I" + os.path.join(REPO, "lib/primesieve/include"), "-I" + hdir]
            # assertions stay switched on
            base = ["g++", "-O2", "-g1", "-w", "-fopenmp", "-mpopcnt", "-D_GLIBCXX_ASSERTIONS", build.HOOK, "-DSCALED"] + inc
            objs = []
            if not os.path.exists(t + ".done"):
                shutil.rmtree(t, ignore_errors=True)
                srcs = translate(t, variant)
                jobs = [(base + ["-std=gnu++11", "-c", s, "-o", s + ".o"]) for s in srcs]
            else:
                jobs = []
            jobs.append(base + ["-std=gnu++17", "-c", os.path.join(hdir, source), "-o", out + ".o"])

            def one(cmd):
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=build._env())
                return "" if r.returncode == 0 else " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:]
            with ThreadPoolExecutor(NPROC) as ex:
                bad = [x for x in ex.map(one, jobs) if x]
            if not bad:
                open(t + ".done", "w").close()
                for root, dirs, files in os.walk(os.path.join(t, "src")):
                    objs += [os.path.join(root, f) for f in sorted(files) if f.endswith(".o")]
                x = one(["g++", "-fopenmp", out + ".o"] + objs + [lib, "-pthread", "-o", out + ".tmp"])
                if x:
                    bad = [x]
            if bad:
                raise build.BuildError(bad[0])
            os.rename(out + ".tmp", out)
        except (build.BuildError, OSError, UnicodeDecodeError) as e:
            os.makedirs(d, exist_ok=True)
            with open(out + ".failed", "w") as fh:
                fh.write(str(e))
            return None
    return out


_ok = {}


def usable(name, source, variant):
    """The harness, if it can be built and does the right thing for numbers for which the size of the types has no influence."""
    import vlib
    h = harness(name, source, variant)
    if not h or name != "h_sum":
        return h
    if variant not in _ok:
        r = vlib.run([h, "algs=dr,lmo", "src=random", "n=150", "maxx=20000", "small=3e4", "threads=1,2", "seed=%d" % vlib.SEED], timeout=60, env={"OMP_NUM_THREADS": "2"})
        _ok[variant] = r.rc == 0
    return h if _ok[variant] else None


def sums(c, sets, variants=("libdivide", "nolibdivide"), timeout=200, env=None):
    """Campaign of h_sum.cpp with scaled types; sets: dicts of arguments."""
    import vlib
    hs = [x for x in (usable("h_sum", "h_sum.cpp", v) for v in variants) if x]
    if not hs:
        c.count("scaled_program_not_available")
        return
    for i, s in enumerate(sets):
        s.setdefault("seed", vlib.SEED * 1000 + 500 + i)
        s.setdefault("truth", vlib.TRUTH)
        s.setdefault("small", 5e5)
        s.setdefault("key", "scaled")
        s.setdefault("lmomax", 2e9)
    vlib.pmap(lambda t: vlib.hrun(c, hs[t[0] % len(hs)], t[1], timeout, dict({"OMP_NUM_THREADS": "16"}, **(env or {})), "scaled"), list(enumerate(sets)))
    c.count("scaled_campaign_runs", len(sets))


def standard(c, n, seed0, algs="dr", **kw):
    """Sums for x from 10^6 (like 10^12) to 10^14 (like 10^28)."""
    k = 8 if __import__("vlib").THOROUGH else 1
    import vlib
    sets = []
    for i in range(n):
        sets.append(dict(algs=algs, src="mix", n=60 * k, minx=1e6, maxx=2e10, threads="1,rand", div="1,rand", alpha="def,rand,max,near1"))
        sets.append(dict(algs="dr", src="anchor", n=5 * k, minx=1e10, maxx=1e12, threads="1,rand", div="1,rand", alpha="def,rand,1,near1"))
        if i % 2 == 0:
            sets.append(dict(algs="dr", src="anchor", n=2 * k, minx=1e12, maxx=1e14, threads="2,4", div="1", alpha="def,rand"))
    for j, s in enumerate(sets):
        s.update(kw)
        s["seed"] = vlib.SEED * 1000 + seed0 + j
    sums(c, sets, timeout=200 * k)


def parts(c, sets, variants=("libdivide", "nolibdivide"), timeout=200):
    """Partial sums with scaled types against the partial sums with the original types."""
    import vlib
    ref = build.harness("rel", "h_parts", ["h_parts.cpp"])[0]
    # (the sums decide whether the translation works)
    hs = [x for x in (usable("h_sum", "h_sum.cpp", v) and harness("h_parts", "h_parts.cpp", v) for v in variants) if x]
    if not hs:
        c.count("scaled_program_not_available")
        return

    def one(t):
        i, s = t
        if c.late():
            return
        args = ["%s=%s" % kv for kv in s.items()]
        out = []
        for h in (ref, hs[i % len(hs)]):
            r = vlib.run([h] + args, timeout=timeout, env={"OMP_NUM_THREADS": "16"})
            lines = [l[2:] for l in r.out.split("\n") if l.startswith("R ")]
            if r.timeout or r.rc == -9:
                c.unsure("partial sums %s did not end" % args)
                return
            at = [l for l in r.out.split("\n") if l.startswith("AT ")]
            if r.rc != 0 or "DONE" not in r.out:
                where = "with integer types of half the size" if h != ref else "with the original types"
                c.violation("parts:crash:%s" % (at[-1][3:10] if at else ""), "partial sums %s: status %s %s %s" % (where, r.rc, at[-1] if at else "", r.err[-500:]),
                            " ".join([h] + args))
                return
            out.append(lines)
        for a, b in zip(*out):
            k = a.split("(")[0]
            c.case(("part", a.split(" ")[0]))
            c.count("scaled_parts_" + k)
            if a != b:
                c.violation("parts:%s" % k, "%s, but %s with integer types of half the size (like x = %.0e with the original ones)" %
                            (a, b.split(" ", 1)[1], float(a.split("x=")[1].split(",")[0]) ** 2), " ".join([hs[i % len(hs)]] + args))
    vlib.pmap(one, list(enumerate(sets)))
