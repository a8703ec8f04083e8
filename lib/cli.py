"""Random primesum command lines for the checks which only watch for errors of memory and threads."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import calc, p09, xs

ALPHAS = ["1", "0", "-3", "1e9", "1e300", "-1e300", "1e-300", "2.5", "7.25", "30", "nan", "inf", "0x10", "1.5e", ".", "abc", ""]
STRANGE = ["", "-", "--", "=", "(", ")", "((((1", "1)", "1+", "5/0", "7%0", "1<<200", "1<<-1", "-5", "--5", "~5", "0x", "0xfffffffffffffffffffffffffffffffffff", "2^127", "-2^127",
           "-2^127/-1", "-2^127%-1", "2^126*2-1+2^126*0", "1e38", "1e39", "9" * 60, "(" * 990 + "1" + ")" * 990, "(" * 3000, "-" * 3000 + "1", "+" * 999 + "1", "~" * 1100 + "1", "1 2", "1e",
           "1e-1", "2**-1", "0**0", "0^0", "0e99", "1>>127", "1>>128", "é", "\x7f", "--number", "--number=", "--number=5", "-t", "-t=", "-a", "-a=", "-s", "-s=-5", "-s99999999999", "-t99999999999",
           "--threads=-99999999999", "-t1e30", "--status=1e30", "--foo", "-x", "--S2", "--help", "-h", "-v", "--version", "-d5", "--lmo6", "--P2=7", "--time=3", "--pi=1"]


def expression(rng, top):
    """A random expression that is rejected or has a value <= top."""
    e = calc.text(rng, calc.tree(rng, rng.randrange(0, 6), 128))
    if rng.random() < 0.3:
        e = calc.mutate(rng, e).replace("\0", "0")
    try:
        r, v, p = calc.evaluate(e, 128)
    except RecursionError:
        return "5"
    if r == "deep" or (isinstance(v, int) and v > top):
        e = "(%s)%%%d" % (e, rng.randrange(2, 10 ** 6))
        r, v, p = calc.evaluate(e, 128)
        if r == "deep" or (isinstance(v, int) and v > top):
            return "7"
    return e


def lines(rng, n, top=3e8):
    """n argument lists."""
    out = []
    for i in range(n):
        k = rng.randrange(20)
        o, time, status = p09.common(rng)
        if rng.random() < 0.4:
            o.append(p09.value(rng, ["-a", "--alpha"], rng.choice(ALPHAS + ["%.4f" % rng.uniform(1, 25)] * 8)))
        if k < 13:
            alg = rng.choice(p09.TOTAL + p09.COMP * 2 + [None] * 4)
            t = min(top, {"--lmo1": 1e6, "--lmo2": 1e7, "--lmo3": 1e8}.get(alg, top))
            v = rng.choice([rng.randrange(40), xs.special(rng, t), xs.logu(rng, 2, t), xs.logu(rng, 2, t)])
            if alg:
                o.append(alg)
            o.append(rng.choice([p09.expr(rng, v)] * 6 + ["--number=" + p09.expr(rng, v)]))
        elif k < 16:
            o += rng.sample(STRANGE, rng.choice([1, 1, 1, 2, 3]))
        elif k == 16:
            o += [str(rng.choice([2 ** 63, 2 ** 63 + rng.randrange(5), 2 ** 64, 2 ** 64 - 1, 2 ** 65, 10 ** 30])), rng.choice([a for a in p09.TOTAL if "lmo" in a])]
        elif k == 17:
            o += [str(rng.randrange(10 ** 32, 10 ** 45))] + rng.choice([[], ["-d"], ["--P2"]])
        else:
            # an expression
            o.append("--number=" + expression(rng, top))
        rng.shuffle(o)
        out.append(o)
    return out
