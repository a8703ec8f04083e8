"""P09: the primesum command line: results, refusals and status output."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, xs
from vlib import THOROUGH, SEED

TOTAL = ["-d", "--deleglise_rivat", "--deleglise_rivat_parallel1", "--pi", "-l", "--lmo", "--lmo_parallel1", "--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5"]
COMP = ["--P2", "--S1", "--S2_trivial", "--S2_easy", "--S2_hard"]
PCT = re.compile(r"Status: (-?[0-9.]+|-?nan|-?inf)%")


def iroot(x, n):
    r = int(round(x ** (1.0 / n)))
    while r ** n > x:
        r -= 1
    while (r + 1) ** n <= x:
        r += 1
    return r


def expr(rng, v):
    """v >= 0 as an argument that starts with a digit."""
    k = rng.randrange(10)
    if k < 5:
        return str(v)
    if k == 5:
        return "0x%x" % v
    if k == 6:
        a = rng.randrange(v + 1)
        return "%d + %d" % (a, v - a)
    if k == 7:
        a = rng.randrange(1, 99)
        return "%d*%d+%d" % (v // a, a, v % a)
    if k == 8:
        e = len(str(v)) - 1
        return "1e%d+%d" % (e, v - 10 ** e) if v else "0"
    return "2^%d-%d" % (v.bit_length(), 2 ** v.bit_length() - v)


def value(rng, names, v):
    n = rng.choice(names)
    return n + v if v[:1].isdigit() and rng.random() < 0.5 else n + "=" + v


def common(rng):
    """Options which do not change the result: (tokens, time, status)."""
    o, time, status = [], False, False
    if rng.random() < 0.35:
        o.append("--time")
        time = True
    if rng.random() < 0.5:
        o.append(value(rng, ["-t", "--threads"], rng.choice(["1", "2", "3", "4", "7", "8", "16", "1000", "0", "-1", "2^3", "1e9"])))
    if rng.random() < 0.45:
        s = rng.choice(["", "", "0", "1", "2", "3", "4", "5", "9", "100", "-1", "1000000000"])
        o.append(rng.choice(["-s", "--status"]) if s == "" else value(rng, ["-s", "--status"], s))
        status = time = True
    return o, time, status


def check_status(out, precision=None):
    """The percentages of each phase are in range and never go backwards."""
    n = 0
    for seg in re.split(r"=== .* ===", out):
        last = None
        for p in PCT.findall(seg):
            n += 1
            try:
                v = float(p)
            except ValueError:
                return "percentage %s" % p, n
            if not 0 <= v <= 100:
                return "percentage %s" % p, n
            if last is not None and v < last:
                return "percentage %s after %s" % (p, last), n
            last = v
    return None, n


def run_one(c, exe, args, env, what):
    r = vlib.run([exe] + args, timeout=120, env=env)
    if r.timeout:
        c.hang("primesum", "primesum %s does not end" % args)
        return None
    if r.rc == -9:
        c.unsure("primesum %s was ended" % args)
        return None
    c.count(what)
    return r


def body(c):
    exe = build.binary(build.flavour("rel"), "primesum")
    clk, _ = build.harness("rel", "h_app", ["h_app.cpp"], kind="app")
    try:
        vg, _ = build.harness("rel", "h_app_v", ["h_app.cpp"], kind="app", vgomp=True)
    except build.BuildError as e:
        if "undefined reference" not in str(e):
            raise
        c.unsure("no scheduler: " + str(e)[-300:])
        vg = None
    rng = c.rng
    k = 8 if THOROUGH else 1

    def variant():
        """A binary and its environment."""
        n = rng.randrange(6)
        env = {"OMP_NUM_THREADS": str(rng.choice([1, 2, 4, 8, 16]))}
        if n < 2:
            return exe, env
        env.update(VCLOCK=str(rng.choice([1, 1, 2, 0])), VCLOCK_SEED=str(rng.randrange(10 ** 6)), PRIMESUM_VERIF_DIVISOR=str(rng.choice([1, 30, 1000, 100000])))
        if n < 4 or not vg:
            return clk, env
        env.update(VGOMP_SERIAL=str(int(rng.random() < 0.7)), VGOMP_SEED=str(rng.randrange(10 ** 6)), VGOMP_SHUFFLE="1", VGOMP_SHRINK=str(rng.randrange(2)))
        return vg, env

    def bad(args, r, why):
        c.violation("cli:" + "_".join(args)[:100], "primesum %s: %s; status %s, stdout %r, stderr %r" % (" ".join(map(repr, args)), why, r.rc, r.out[-500:], r.err[:300]), repr(r.cmd))

    # --- total sums
    jobs = []
    for i in range(6000 * k):
        alg = rng.choice(TOTAL + [None, None, None])
        top = {"--lmo1": 1e7, "--lmo2": 2e8, "--lmo3": 1e9, "--lmo4": 1e9, "--lmo5": 5e9}.get(alg, 3e10)
        v = rng.choice([rng.randrange(30), xs.special(rng, top), xs.logu(rng, 2, top), xs.logu(rng, 2, top)])
        o, time, status = common(rng)
        if alg:
            o.append(alg)
            if rng.random() < 0.1:
                # the last algorithm counts; a component before it does not matter
                o.insert(0, rng.choice(COMP + TOTAL))
        if rng.random() < 0.3:
            o.append(value(rng, ["-a", "--alpha"], rng.choice(["1", "0", "-3", "1e9", "%.3f" % rng.uniform(1, 30), "%.6f" % rng.uniform(1, 3), "1e-300"])))
        # any order, but the algorithm options among each other
        algs = [x for x in o if x in TOTAL + COMP]
        rest = [x for x in o if x not in TOTAL + COMP] + [rng.choice([expr(rng, v)] * 5 + ["--number=" + expr(rng, v)])]
        rng.shuffle(rest)
        for j, p in enumerate(sorted(rng.randrange(len(rest) + 1) for _ in algs)):
            rest.insert(p + j, algs[j])
        jobs.append((v, rest, time, status) + variant())
    truth = vlib.true_sums([j[0] for j in jobs if j[0] > 1] + list(range(2, 40)))

    def one(j):
        v, args, time, status, b, env = j
        want = truth.get(v) if v > 1 else "0"
        if want is None or c.late():
            return
        r = run_one(c, b, args, env, "total_runs")
        if r is None:
            return
        c.case(("total",) + tuple(args), sample="primesum %s -> %s" % (" ".join(args), " ".join(r.out.split("\n")[-3:-1])) if len(args) > 4 else None)
        if r.rc != 0 or r.err:
            return bad(args, r, "not successful")
        tail = r"Seconds: \d+\.\d{3}\n" if time else ""
        if not status:
            if not re.fullmatch(want + r"\n" + tail, r.out):
                bad(args, r, "expected %s" % want)
            return
        if not re.search(r"(?:^|\n)" + want + r"\n" + tail + r"\Z", r.out):
            return bad(args, r, "expected %s at the end" % want)
        w, n = check_status(r.out)
        c.count("percentages", n)
        if w:
            return bad(args, r, w)
        f = {a: int(b) for a, b in re.findall(r"(?:^|\n)(P2|S1_sum|S2_trivial|S2_easy|S2_hard|S2|y) = (-?\d+)\n", r.out)}
        if "y" in f and "S1_sum" in f and "P2" in f and ("S2" in f or "S2_hard" in f):
            pi_y = truth.get(f["y"]) if f["y"] > 1 else "0"
            if pi_y is None:
                pi_y = vlib.true_sums([f["y"]]).get(f["y"]) if f["y"] < 10 ** 7 else None
            if pi_y is not None:
                c.count("reported_parts_recombined")
                s2 = f["S2"] if "S2" in f else f["S2_trivial"] + f["S2_easy"] + f["S2_hard"]
                if f["S1_sum"] + s2 + int(pi_y) - 1 - f["P2"] != int(want):
                    bad(args, r, "the reported parts do not sum to %s" % want)
    vlib.pmap(one, jobs)

    # --- components: the same value with any other options, and together the sum
    groups = []
    for i in range(150 * k):
        v = rng.choice([rng.randrange(40), xs.special(rng, 1e11), xs.logu(rng, 10, 1e10), xs.logu(rng, 10, 1e12)])
        a = None if rng.random() < 0.4 else rng.uniform(1, 8)
        groups.append((v, a, [(comp,) + common(rng) + variant() for comp in COMP for _ in range(3)], rng.randrange(10 ** 9)))
    gtruth = vlib.true_sums([g[0] for g in groups if g[0] > 1])

    def group(g):
        v, a, runs, seed = g
        r0 = random.Random(seed)
        al = [] if a is None else ["--alpha=%.4f" % a]
        got = {}
        y = None
        for comp, o, time, status, b, env in [("--S1", ["--status"], True, True, exe, {})] + runs:
            if c.late():
                return
            args = o + al + [comp, expr(r0, v)]
            r0.shuffle(args)
            r = run_one(c, b, args, env, "component_runs")
            if r is None:
                return
            c.case(("component",) + tuple(args))
            if r.rc != 0 or r.err:
                return bad(args, r, "not successful")
            if status and v >= 1:
                w, n = check_status(r.out)
                c.count("percentages", n)
                if w:
                    return bad(args, r, w)
                m = re.findall(r"(?:^|\n)%s(?:_sum)? = (-?\d+)\nSeconds: \d+\.\d{3}\n\Z" % comp[2:], r.out)
                my = re.findall(r"\ny = (\d+)\n", r.out)
                if len(m) != 1 or len(my) != 1:
                    return bad(args, r, "no value")
                res = int(m[0])
                if y is None:
                    y = int(my[0])
                if int(my[0]) != y:
                    return bad(args, r, "y = %s, before %s" % (my[0], y))
            else:
                m = re.fullmatch(r"\n?(-?\d+)\n" + (r"Seconds: \d+\.\d{3}\n" if time else ""), r.out)
                if not m:
                    return bad(args, r, "no value")
                res = int(m.group(1))
            if got.setdefault(comp, res) != res:
                return bad(args, r, "%s = %d, with other options %d" % (comp, res, got[comp]))
        if v < 1:
            if any(got.values()):
                c.violation("component:%d" % v, "components of %d: %s" % (v, got))
        elif v > 1 and v in gtruth and y is not None:
            pi_y = int(vlib.true_sums([y]).get(y, 0)) if y > 1 else 0
            c.count("components_recombined")
            if got["--S1"] + got["--S2_trivial"] + got["--S2_easy"] + got["--S2_hard"] + pi_y - 1 - got["--P2"] != int(gtruth[v]):
                c.violation("component:%d" % v, "the components of %d (alpha %s, y = %d) do not recombine: %s, sum of primes <= y %d, sum %s" % (v, a, y, got, pi_y, gtruth[v]))
    vlib.pmap(group, groups)

    # --- refusals
    lim = None
    r = vlib.run([exe, "1e33"], timeout=60)
    m = re.search(r"<= (\d{20,})", r.err)
    if m:
        lim = int(m.group(1))
    todo = []
    for i in range(1200 * k):
        o = common(rng)[0]
        n = rng.randrange(11)
        num = [expr(rng, rng.randrange(10 ** 6))]
        if n == 0:
            todo.append(("unknown option", o + num + [rng.choice(["--foo", "-x", "--P3", "--S3", "--S2", "--timex", "-z5", "--stat", "--deleglise", "-T4", "--PI", "--alp=3"])]))
        elif n == 1:
            todo.append(("two numbers", o + num + [expr(rng, rng.randrange(10 ** 6))]))
        elif n == 2:
            todo.append(("no number", o + [rng.choice(["--time", "-d", "--lmo", "--P2", "-t4"])]))
        elif n == 3:
            todo.append(("bad option value", o + num + [rng.choice(["--threads=abc", "-t=", "--alpha=abc", "--alpha=", "-a", "--threads", "-t", "--status=abc", "-s=x", "--number=", "--threads=5/0", "--status=1e"])]))
        elif n == 4:
            todo.append(("malformed number", o + [rng.choice(["12abc", "1.5", "5/0", "3)", "2(", "1e", "0x", "1,5", "7%0", "1 2", "3-", "--number=abc", "--number=(1", "--number=--"])]))
        elif n == 5:
            v = rng.choice([10 ** 33, 10 ** 35, 2 ** 126, 2 ** 127 - 1, rng.randrange(10 ** 32, 2 ** 127)])
            todo.append(("beyond the limit", o + [expr(rng, v)] + rng.choice([[], [], [rng.choice(COMP)], ["-d"], ["--pi"]])))
        elif n == 6 and lim:
            v = lim + rng.choice([1, 2, 1000, rng.randrange(1, lim)])
            todo.append(("just beyond the limit", o + [str(v)] + rng.choice([[], ["-d"], ["--deleglise_rivat_parallel1"]]) ))
        elif n == 7:
            v = rng.choice([2 ** 127, 2 ** 128, 2 ** 128 + rng.randrange(100), 10 ** 39, 10 ** 60, 2 ** 127 + rng.randrange(2 ** 127)])
            todo.append(("beyond 127 bits", o + [rng.choice([str(v), "0x%x" % v, "2^%d" % rng.randrange(127, 300), "1e%d" % rng.randrange(39, 99), "1<<%d" % rng.randrange(127, 300),
                                                              "10^19*10^20", str(2 ** 127 - 1) + "+1"])] + rng.choice([[], ["--lmo"], [rng.choice(COMP)]])))
        elif n == 8 or n == 9:
            v = rng.choice([2 ** 63, 2 ** 63 + 1, 2 ** 64, 2 ** 64 + 1, 2 ** 64 + rng.randrange(10 ** 6), 2 ** 65 - 1, 10 ** 20, rng.randrange(2 ** 63, 10 ** 33)])
            todo.append(("63-bit function", o + [expr(rng, v), rng.choice([a for a in TOTAL if "lmo" in a or a == "-l"])]))
        else:
            todo.append(("empty argument", o + num + [rng.choice(["", "=", "-", "--"])]))

    def refused(t):
        what, args = t
        args = list(args)
        random.Random(len("".join(args))).shuffle(args)
        if c.late():
            return
        r = run_one(c, exe, args, {}, "refused: " + what)
        if r is None:
            return
        c.case(("refused",) + tuple(args))
        # nothing that looks like a result
        text = r.out if "Usage" not in r.out else ""
        if r.rc != 1 or not ("Error: " in r.err or "Usage" in r.out) or re.search(r"(?:^|\n)-?\d+\n", text):
            bad(args, r, "%s is not refused" % what)
    vlib.pmap(refused, todo)
    for args in ([], ["-h"], ["--help"], ["100", "-h"], ["-v"], ["--version"], ["5", "--version"]):
        r = run_one(c, exe, args, {}, "texts")
        if r is not None:
            c.case(("text",) + tuple(args))
            if r.rc not in (0, 1) or ("primesum" not in r.out) or re.search(r"(?:^|\n)\d+\n", r.out):
                bad(args, r, "no text")


if __name__ == "__main__":
    vlib.main(body, "P09", "exploration",
              "random command lines (algorithm, components, threads, alpha, time, status precision, expressions, any order) of the program, of the program with a virtual "
              "clock (status printed at any time) and of the program with seeded schedules: output compared with the true sum, every phase's percentages in [0,100] "
              "and monotone, reported and separately computed parts recombined; bad command lines must be refused; each argument list is a case")
