"""P20: the primesieve command line computes what was asked or refuses."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, window, xs
from vlib import THOROUGH, SEED

TOP = 2 ** 64 - 1
NAMES = ["Primes: ", "Twin primes: ", "Prime triplets: ", "Prime quadruplets: ", "Prime quintuplets: ", "Prime sextuplets: "]


def expr(rng, v):
    """v written in one of many ways (never starting with a minus sign)."""
    k = rng.randrange(14)
    if k < 6:
        return str(v)
    if k == 6:
        return "0x%x" % v
    if k == 7:
        a = rng.randrange(v + 1)
        return "%d+%d" % (a, v - a)
    if k == 8:
        a = rng.randrange(1, 1000)
        return "%d*%d+%d" % (v // a, a, v % a)
    if k == 9:
        return "(%d)" % v
    if k == 10:
        e = max(0, v.bit_length() - rng.randrange(0, 3))
        d = v - 2 ** e
        return "2%s%d%s%d" % (rng.choice(["^", "**"]), e, "+" if d >= 0 else "-", abs(d))
    if k == 11:
        e = len(str(v)) - rng.randrange(0, 2)
        d = v - 10 ** e
        return "%s%s%d" % (rng.choice(["1e%d", "10^%d", "10**%d"]) % e, "+" if d >= 0 else "-", abs(d))
    if k == 12:
        a = rng.randrange(1, 99)
        return "%d/%d" % (v * a + rng.randrange(a), a)
    return " %d + %d - %d" % (v, 7, 7)


def place(rng):
    k = rng.randrange(9)
    if k == 0:
        v = rng.randrange(60)
    elif k == 1:
        v = xs.logu(rng, 1, 1e6)
    elif k == 2:
        v = 10 ** rng.randrange(1, 14) + rng.randrange(-50, 50)
    elif k == 3:
        v = 2 ** rng.randrange(1, 45) + rng.randrange(-50, 50)
    elif k == 4:
        v = xs.next_prime(xs.logu(rng, 2, 1e6)) ** 2 + rng.randrange(-2, 3)
    else:
        v = xs.logu(rng, 1, 10 ** rng.randrange(2, 14))
    return max(0, v)


class Job:
    pass


def opt(rng, names, v=None, value=None):
    """Tokens of an option with a value."""
    n = rng.choice(names)
    s = value if value is not None else str(v)
    k = rng.randrange(3)
    if k == 0:
        return [n, s]
    if k == 1 and s[:1].isdigit() and "=" not in s:
        return [n + s]
    return [n + "=" + s]


def is_option(s):
    return re.match(r"--?[A-Za-z]", s) is not None


def assemble(rng, pos, options):
    """Random order, the positional numbers keep theirs."""
    rng.shuffle(options)
    slots = sorted(rng.randrange(len(options) + 1) for _ in pos)
    out, i = [], 0
    for j, o in enumerate(options + [None]):
        while i < len(pos) and slots[i] == j:
            out.append(pos[i])
            i += 1
        if o:
            out.append(o)
    args = []
    for j, o in enumerate(out):
        o = list(o)
        # an option with an optional value would take the following number
        if o[-1] in ("-c", "--count", "-p", "--print") and j + 1 < len(out) and not is_option(out[j + 1][0]):
            o[-1] += "=1" if o[-1].startswith("--") else "1"
        args += o
    return args


def make(rng, big=False, top=False):
    j = Job()
    j.n = None
    mode = rng.choice(["count"] * 5 + ["print"] * 3 + ["nth"] * 3)
    if big:
        mode = rng.choice(["count", "count", "count", "nth", "print", "print"])
    options, pos = [], []
    number = lambda v: [expr(rng, v)] if rng.random() < 0.85 else ["--number=" + expr(rng, v)] if rng.random() < 0.6 else ["--number", expr(rng, v)]
    j.quiet = j.time = False
    j.kinds = []
    j.printk = None
    if mode == "nth":
        j.n = rng.choice([0, 1, 2, 3, rng.randrange(1, 50), xs.logu(rng, 1, 5000)]) if not big else xs.logu(rng, 1e5, 2e6)
        s = place(rng)
        if top:
            j.n, s = rng.randrange(0, 12), TOP - rng.randrange(0, 500)
        if rng.random() < 0.35 and not top:
            j.a = 0
            pos = [number(j.n)]
        else:
            j.a = s
            pos = [number(j.n), number(s)]
        options.append([rng.choice(["-n", "--nth-prime", "--nthprime"])])
        j.query = "N %d %d" % (j.n, j.a)
    else:
        a = place(rng)
        ln = rng.choice([0, 1, rng.randrange(0, 40), xs.logu(rng, 1, 3000), xs.logu(rng, 1, 200000)]) if not big else xs.logu(rng, 3e6, 6e7)
        if big:
            a = rng.choice([0, a, xs.logu(rng, 1, 1e11)])
        if big and mode == "print":
            ln = xs.logu(rng, 1.9e7, 6e7)
        b = a + ln
        if top:
            a = TOP - rng.randrange(0, 3000)
            b = min(TOP, a + rng.choice([0, 1, 100, 3000]))
        if rng.random() < 0.06 and not top:
            a, b = b + 1 + rng.randrange(1000), a       # an empty interval
        k = rng.random()
        if k < 0.2 and not top and b < 10 ** 8:
            a = 0
            pos = [number(b)]
        elif k < 0.45 and b >= a:
            pos = [number(a)] if a or rng.random() < 0.5 else []
            options.append(opt(rng, ["-d", "--dist"], value=expr(rng, b - a)))
        else:
            pos = [number(a), number(b)]
        j.a, j.b = a, b
        kinds = set()
        if mode == "count" or rng.random() < 0.2:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                ks = [rng.randrange(1, 7) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
                if ks == [1] and rng.random() < 0.7:
                    options.append([rng.choice(["-c", "--count"])])
                else:
                    options.append(opt(rng, ["-c", "--count"], value="".join(map(str, ks))))
                kinds.update(ks)
        if mode == "print":
            j.printk = rng.randrange(0, 6) if not big else rng.randrange(1, 6)
            options.append([rng.choice(["-p", "--print"])] if j.printk == 0 and rng.random() < 0.7 else opt(rng, ["-p", "--print"], j.printk + 1))
            j.quiet = True
        elif not kinds:
            kinds.add(1)
        j.kinds = sorted(k - 1 for k in kinds)
        j.query = "C %d %d" % (a, b)
    if rng.random() < 0.35:
        options.append([rng.choice(["-q", "--quiet"])])
        j.quiet = True
    if rng.random() < 0.2:
        options.append(["--time"])
        j.time = True
    if rng.random() < 0.25:
        options.append(["--no-status"])
    j.threads = None
    if rng.random() < 0.4:
        j.threads = rng.choice([1, 2, 3, 4, 7, 8, 100, 0, -3, 1000000])
        options.append(opt(rng, ["-t", "--threads"], j.threads))
    if rng.random() < 0.4:
        options.append(opt(rng, ["-s", "--size"], rng.choice([8, 9, 16, 31, 32, 64, 100, 256, 1024, 4096, 1, 0, -1, 100000, 2147483647])))
    j.args = assemble(rng, pos, options)
    j.pos, j.options = pos, options
    return j


def broken(rng, j):
    """A job that has to be refused."""
    pos, options = [list(p) for p in j.pos], [list(o) for o in j.options]
    k = rng.randrange(15)
    over = lambda: str(rng.choice([2 ** 64, 2 ** 64 + 1, 2 ** 64 + rng.randrange(10 ** 6), 2 ** 65 - 1, 2 ** 127 - 1, 2 ** 127, 2 ** 128 + 5, 10 ** 40, 2 ** 64 + 100]))
    if k == 0:
        return ["unknown"], assemble(rng, pos, options + [[rng.choice(["--foo", "-x", "-z9", "--counts", "--timex", "--no-statusx", "--siz=3", "-Q", "--Count", "--nth", "-e5", "--prin=2"])]])
    if k == 1:
        return ["missing value"], assemble(rng, pos, options) + [rng.choice(["-t", "--threads", "-d", "--dist", "-s", "--size", "--number"])]
    if k == 2:
        return ["option as value"], assemble(rng, pos, options + [[rng.choice(["-t", "--threads", "-s", "--size"]), rng.choice(["--time", "-q", "--no-status"])]])
    if k == 3:
        return ["count kind"], assemble(rng, pos, options + [opt(rng, ["-c", "--count"], value=rng.choice(["7", "8", "9", "17", "71", "10", "101", "2147483648", "99999999999999999999", "1e", "1+", "a"]))])
    if k == 4:
        return ["print kind"], assemble(rng, pos, options + [opt(rng, ["-p", "--print"], value=rng.choice(["7", "0", "12", "4294967297", "18446744073709551617", "1x", "-1"]))])
    if k == 5:
        i = rng.randrange(len(pos)) if pos else 0
        if not pos:
            pos = [["1"]]
        pos[i] = [rng.choice([over, lambda: "2^64", lambda: "1e20", lambda: "2**64-1+1", lambda: "0x10000000000000000", lambda: "1<<64", lambda: "18446744073709551615+1"])()]
        return ["number >= 2^64"], assemble(rng, pos, options)
    if k == 6:
        return ["negative number"], assemble(rng, pos + [[rng.choice(["-5", "-1", "0-1", "3-5", "--number=-7", "-0x5", "1-2**64"])]], options)
    if k == 7:
        return ["not a number"], assemble(rng, pos + [[rng.choice(["abc", "", "12abc", "1.5", "1e", "5+", "(3", "3)", "0x", "1 2", "1,000", "--number=", "5/0", "2^-1"])]], options)
    if k == 8:
        return ["no number"], [rng.choice(["-q", "--time", "-c", "--no-status", "-t4", "-c2", "-p", "-n", "--size=32"]) for _ in range(rng.randrange(1, 3))]
    if k == 9:
        a = rng.randrange(1, 2 ** 63)
        d = TOP - a + 1 + rng.choice([0, 1, 12345])
        return ["start + distance >= 2^64"], assemble(rng, [[expr(rng, a)]], [opt(rng, ["-d", "--dist"], value=expr(rng, d)), ["-q"]])
    if k == 10:
        return ["size value"], assemble(rng, pos, options + [opt(rng, ["-s", "--size"], value=rng.choice(["abc", "1x", "99999999999", "2147483648", "1e10", "4294967328"]))])
    if k == 11:
        return ["threads value"], assemble(rng, pos, options + [opt(rng, ["-t", "--threads"], value=rng.choice(["abc", "1x", "99999999999", "2147483648", "4294967298", "2**32+1"]))])
    if k == 12:
        return ["n >= 2^63"], assemble(rng, [[expr(rng, rng.choice([2 ** 63, 2 ** 63 + 5, TOP]))]] + ([["100"]] if rng.random() < 0.5 else []), [["-n"], ["-q"]])
    if k == 13:
        return ["distance >= 2^64"], assemble(rng, [["5"]], [opt(rng, ["-d", "--dist"], value=over())])
    return ["unknown with value"], assemble(rng, pos, options + [[rng.choice(["--foo=3", "-x5", "--thread=4", "--quiet2x=3", "--statusx=2"])]])


STATUS = re.compile(r"(?:\r\d+%)*\n?")


def judge(j, r, answers, lists):
    """None or what is wrong."""
    if r.rc != 0:
        if j.n is not None and answers[j.query] == "none" and r.err and r.rc == 1 and "Nth prime" not in r.out:
            return None
        return "status %s" % r.rc
    if r.err:
        return "text on stderr"
    out = r.out
    if not j.quiet:
        m = re.match(r"Sieve size = (\d+) KiB\nThreads = (\d+)\n", out)
        if not m:
            return "no settings"
        if not 8 <= int(m.group(1)) <= 4096:
            return "sieve size"
        t = int(m.group(2))
        if t < 1 or (j.threads is not None and j.threads > 0 and t > j.threads):
            return "threads"
        out = out[m.end():]
        m = STATUS.match(out)
        pc = [int(x) for x in re.findall(r"(\d+)%", m.group(0))]
        if any(p > 100 for p in pc) or pc != sorted(pc):
            return "status %s" % pc
        out = out[m.end():]
    # printed primes come before the time
    if j.printk is not None:
        t = lists[(j.printk, j.a, j.b)]
        if not out.startswith(t):
            return "printed list"
        out = out[len(t):]
    m = re.match(r"Seconds: \d+\.\d{3}\n", out)
    if (m is not None) != (j.time or not j.quiet):
        return "seconds"
    if m:
        out = out[m.end():]
    if j.n is not None:
        if answers[j.query] == "none":
            return "a prime beyond 2^64"
        exp = "Nth prime: %s\n" % answers[j.query]
    else:
        f = answers[j.query].split()
        exp = "".join("%s%s\n" % (NAMES[k], f[k]) for k in j.kinds)
    if out != exp:
        return "expected %r" % exp[:300]
    return None


def body(c):
    exe = build.binary(build.flavour("rel"), "primesieve")
    rng = c.rng
    k = 10 if THOROUGH else 1
    jobs = [make(rng) for _ in range(7000 * k)] + [make(rng, big=True) for _ in range(120 * k)] + [make(rng, top=True) for _ in range(12 * k)]
    answers = window.query([j.query for j in jobs])
    want = {"L %d %d %d" % (j.printk, j.a, j.b): (j.printk, j.a, j.b) for j in jobs if j.printk is not None}
    lists = {want[q]: window.text(a) for q, a in window.query(want).items()}
    # make a result that swallowed or lost an option visible: no two results of a job are equal by chance too often
    def one(j):
        if c.late():
            return
        r = vlib.run([exe] + j.args, timeout=120)
        c.case(("run",) + tuple(j.args), sample=" ".join(j.args) + " -> " + r.out[-40:].strip().replace("\n", " | ") if len(j.args) > 6 else None)
        c.count("nth_prime_runs" if j.n is not None else "print_runs" if j.printk is not None else "count_runs")
        if r.timeout:
            return c.hang("primesieve", "primesieve %s does not end" % j.args)
        if r.rc == -9:
            return c.unsure("primesieve %s was ended" % j.args)
        w = judge(j, r, answers, lists)
        if w:
            c.violation("cli:" + "_".join(j.args)[:100], "primesieve %s: %s; status %s, stdout %r stderr %r" % (" ".join(map(repr, j.args)), w, r.rc, r.out[-400:], r.err[:200]),
                        repr([exe] + j.args))
    vlib.pmap(one, jobs)

    bad = [broken(rng, make(rng)) for _ in range(1500 * k)]

    def two(b):
        what, args = b
        if c.late():
            return
        r = vlib.run([exe] + args, timeout=120)
        c.case(("refused",) + tuple(args))
        c.count("refused: " + what[0])
        if r.timeout:
            return c.hang("primesieve", "primesieve %s does not end" % args)
        if r.rc == -9:
            return
        if r.rc != 1 or not (r.err.strip() or "Usage" in r.out) or re.search(r"rimes: \d|plets: \d|Nth prime: \d", r.out):
            c.violation("refuse:" + "_".join(args)[:100], "primesieve %s (%s): status %s, stdout %r stderr %r" % (" ".join(map(repr, args)), what[0], r.rc, r.out[-300:], r.err[:200]),
                        repr([exe] + args))
    vlib.pmap(two, bad)
    # the texts
    for args, rc, word in (([], 1, "Usage"), (["-h"], 0, "Usage"), (["--help"], 0, "Usage"), (["100", "--help"], 0, "Usage"), (["-v"], 0, "primesieve"),
                           (["--version"], 0, "primesieve"), (["--cpu-info"], 0, "cores")):
        r = vlib.run([exe] + args, timeout=60)
        c.case(("text",) + tuple(args))
        if r.rc != rc or word not in r.out or re.search(r"rimes: \d", r.out):
            c.violation("text:" + "_".join(args), "primesieve %s: status %s %r" % (args, r.rc, r.out[:200]))


if __name__ == "__main__":
    vlib.main(body, "P20", "exploration",
              "random command lines: mode, interval or n written as expressions, options in every spelling and random order, threads, sizes, quiet, time; the "
              "whole output is compared with a model fed by an independent sieve; command lines broken in one place must be refused; each distinct argument list is a case")
