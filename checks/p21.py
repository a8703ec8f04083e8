"""P21: memory exhaustion yields a clean error, never a wrong answer."""
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, cli, xs
import p09, p20
from vlib import THOROUGH, SEED

PARTS = ["oom_sum.cpp", "oom_parts.cpp", "oom_sieve.cpp"]


def harness(fl):
    return build.harness(fl, "h_oom", ["h_oom.cpp"] + PARTS, optional=tuple(PARTS), libs=vlib.OOM_WRAP)


def sets(n, base):
    out = []
    for i in range(n):
        out.append(dict(mode="calls", n=1, cap=(200, 60, 400, 30)[i % 4]))
        out.append(dict(mode="hist", n=5, cap=120))
        out.append(dict(mode="cold", n=1, cap=60))
    for j, s in enumerate(out):
        s["seed"] = base + j
    return out


def norm(out):
    out = re.sub(r"[^\r\n]*%[ ]*(?=[\r\n]|$)", "", out)
    out = re.sub(r"Seconds: [0-9.]+", "", out)
    return re.sub(r"[\r\n]+", "\n", out).strip()


def primesum_line(rng):
    o, _, _ = p09.common(rng)
    v = rng.choice([rng.randrange(100), xs.logu(rng, 2, 1e6), xs.logu(rng, 2, 1e9)])
    alg = rng.choice(p09.TOTAL + p09.COMP + [None] * 4)
    if alg in ("--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5"):
        v = min(v, 10 ** 6)
    o = [a for a in o if not a.startswith(("-s", "--status"))] + ["-t%d" % rng.choice([1, 2, 4])]
    a = o + ([alg] if alg else []) + [p09.expr(rng, v)]
    rng.shuffle(a)
    k = rng.randrange(14)
    if k == 0:
        a = rng.choice([["--help"], ["-v"], ["abc"], ["1+"], ["5/0"], ["1e40"], ["--lmo1", "2**70"], ["--alpha=x", "5"], []])
    if k == 1:
        a.append("-s%d" % rng.randrange(3))
    return a


def primesieve_line(rng):
    a = rng.choice([0, xs.logu(rng, 1, 1e6), xs.logu(rng, 1, 1e11)])
    k = rng.randrange(9)
    t = ["-t%d" % rng.choice([1, 2, 4])] + rng.choice([[], ["-s%d" % (8 << rng.randrange(6))]]) + rng.choice([[], ["-q"], ["--no-status"], ["--time"]])
    if k == 0:
        return ["-n", str(xs.logu(rng, 1, 1e5)), str(a)] + t
    if k in (1, 2):
        return [str(a), "-d%d" % xs.logu(rng, 1, 3e4), "-p%d" % rng.randrange(1, 7)] + t
    if k == 3:
        return [str(a), str(a + xs.logu(rng, 2e7, 5e7)), "-c%s" % rng.choice(["1", "123456", "2"])] + t
    if k == 4:
        return rng.choice([["-h"], ["-v"], ["abc"], ["1", "-p9"], ["--size"], ["-t", "1+"], ["2**70"], []])
    return [p20.expr(rng, a), "-d%d" % xs.logu(rng, 1, 1e6), "-c%s" % rng.choice(["1", "123456", "34"])] + t


def body(c):
    rng = c.rng
    k = 6 if THOROUGH else 1
    todo = []
    h, left = harness("rel")
    ha, _ = harness("asan")
    for f in left:
        c.note("left out, does not compile: " + f)
    todo += [(h, s) for s in sets(16 * k, SEED * 100000)]
    todo += [(ha, dict(s, cap=s["cap"] // 6, n=1)) for s in sets(6 * k, SEED * 100000 + 50000)]
    rng.shuffle(todo)
    vlib.pmap(lambda t: vlib.hrun(c, t[0], t[1], 200, what="h_oom:" + t[1]["mode"]), todo)
    c.stage("harnesses")
    so = build.tool("oomlib.so", ["oomlib.c"], flags=("-O2", "-shared", "-fPIC"))
    d = build.flavour("plain")
    exe = {"primesum": build.binary(d, "primesum"), "primesieve": build.binary(d, "primesieve")}
    tmp = tempfile.mkdtemp(prefix="verif-oom-")
    try:
        programs(c, k, so, exe, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def programs(c, k, so, exe, tmp):
    rng = c.rng
    jobs = []
    for i in range(150 * k):
        for prog, f in (("primesum", primesum_line), ("primesieve", primesieve_line)):
            jobs.append((prog, f(rng), rng.getrandbits(60), len(jobs)))
    cap = 30

    def one(j):
        import random
        prog, args, seed, num = j
        if c.late():
            return
        r = random.Random(seed)
        out = os.path.join(tmp, "%d" % num)

        def go(mode, at):
            e = {"LD_PRELOAD": so, "OOM_MODE": mode, "OOM_AT": str(at), "OOM_SEED": str(seed % 10 ** 9), "OOM_OUT": out}
            return vlib.run([exe[prog]] + args, timeout=60, env=e)

        def cut(s):
            return s if len(s) < 1500 else s[:700] + " ... " + s[-700:]
        clean = go("none", 0)
        if vlib.rc_is_setup_error(clean) or not os.path.exists(out):
            raise build.BuildError("%s %s cannot be run with %s: %s" % (prog, args, so, clean.err[-500:]))
        n = int(open(out).read().split()[0])
        c.count(prog + "_lines")
        c.count(prog + "_requests", n)
        want = norm(clean.out)
        if clean.timeout or clean.rc < 0:
            c.unsure("%s %s without failures: status %s" % (prog, args, clean.rc))
            return
        todo = []
        if n <= cap:
            todo = [(m, i) for i in range(1, n + 1) for m in ("once", "from")]
            c.count(prog + "_lines_with_every_request_failed")
        else:
            # the first ones (options), the last ones (result) and some between
            ks = list(range(1, cap // 2)) + list(range(n - 4, n + 2)) + [r.randrange(1, n + 1) for _ in range(cap // 3)]
            todo = [(m, i) for i in ks for m in (("once", "from") if r.random() < 0.4 else ("once",))]
        todo += [("some", r.choice([3, 20, 100, 500])) for _ in range(4)]
        for m, i in todo:
            try:
                os.remove(out)
            except FileNotFoundError:
                pass
            x = go(m, i)
            what = "%s %s, failing request %s %s of %d" % (prog, args, m, i, n)
            key = "%s:%s" % (prog, "_".join(args)[:60])
            f = 0
            try:
                f = int(open(out).read().split()[1])
            except (OSError, IndexError, ValueError):
                pass
            c.case((num, m, i) if f else None)
            c.count(prog + "_runs")
            c.count(prog + "_requests_failed", f)
            if x.timeout:
                c.hang(key, "%s does not end" % what, x.out[-500:])
            elif x.rc == -9:
                c.unsure("%s: ended from outside" % what)
            elif x.rc < 0:
                c.violation("crash:" + key, "%s: signal %d: %s" % (what, -x.rc, x.err[-300:]))
            elif x.rc == 0:
                c.count(prog + "_completed")
                if clean.rc != 0 or norm(x.out) != want:
                    c.violation("wrong:" + key, "%s: status 0 and %r, without failures status %s and %r" % (what, cut(norm(x.out)), clean.rc, cut(want)))
            else:
                c.count(prog + "_errors_reported")
                if not (x.out + x.err).strip():
                    c.violation("silent:" + key, "%s: status %d without any message" % (what, x.rc))
    vlib.pmap(one, jobs)


if __name__ == "__main__":
    vlib.main(body, "P21", "fault_enumeration",
              "memory requests of library calls and program runs made to fail (the k-th, all from the k-th on, at random, all above a size; every k where there are few "
              "requests), in warm and in new processes, in prime iterator histories which go on after the failure; the call has to report an error or to give the result "
              "of the undisturbed call, and to work again afterwards; a case is one call, history or run with at least one failed request")
