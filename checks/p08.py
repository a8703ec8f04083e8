"""P08: number expressions are evaluated exactly or rejected."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, build, calc
from vlib import THOROUGH, SEED

sys.setrecursionlimit(20000)
BITS = {"128": 128, "64": 64, "32": 32, "to128": 128, "s128": 128, "s64": 64, "s32": 32}


def tune(rng, e, bits):
    """Variants of e whose value lies close to the limits."""
    k, v, p = calc.evaluate(e, bits)
    if k != "ok":
        return e
    m = rng.choice([(1 << (bits - 1)) - 1, -(1 << (bits - 1))])
    d = m - v + rng.randrange(-2, 3)
    lim = (1 << (bits - 1)) - 1
    if abs(d) > lim:
        return e
    return "(%s)%s%d" % (e, "+" if d >= 0 else "-", abs(d))


def expressions(rng, n, bits):
    out = []
    for _ in range(n):
        k = rng.random()
        t = calc.tree(rng, rng.randrange(0, 5), bits)
        e = calc.text(rng, t)
        if k < 0.55:
            # the tree and the parser of the oracle have to agree
            ctx = calc.Parser("", bits)
            try:
                w = calc.tree_value(t, ctx)
            except calc.Bad:
                w = "bad"
            except calc.Over:
                w = None
            r, v, _p = calc.evaluate(e, bits)
            if (r == "bad") != (w == "bad") or (r == "ok" and v != w):
                if not (r == "over" and w == "bad") and not (r == "bad" and w is None):
                    print("ORACLE: %r %s %s %s" % (e, r, v, w))
                    sys.exit(3)
        elif k < 0.75:
            e = tune(rng, e, bits)
        elif k < 0.95:
            e = calc.mutate(rng, e)
        else:
            e = "".join(rng.choice(calc.CHARS) for _ in range(rng.randrange(0, 12)))
        out.append(e)
    return out


def hash_bit(e):
    return sum(e.encode("latin1")) % 2 == 0


FIXED = ["", " ", "0", "(", ")", "()", "-", "1+", "2**16", "65536 >> 15", "(0 + 0xDf234 - 1000)*3/2%999", "-(2**2**2**2)",
         "(0 + ~(0xDF234 & 1000) *3) /-2", "(2**16) + (1 << 16) >> 0X5", "5*-(2**(9+7))/3+5*(1 & 0xFf123)", "-3**2", "2**3**2",
         "7-3-2", "100/7/2", "1e18", "1e+2", "1e-1", "0**0", "0x", "0xg", "0x1g", "1e", "e1", "1e2e1", "--1", "+-~1", "1 2", "1.5", "1e5x",
         "1<<127", "1<<126", "-1<<127", "1<<-1", "1>>128", "-1>>127", "-7/2", "-7%2", "7%-2", "7/0", "7%(3-3)", "2^10", "1 | 2 & 3 << 1 + 1",
         "9" * 40, "0x" + "f" * 32, "0x7" + "f" * 31, "0x8" + "0" * 31, "(" * 400 + "7" + ")" * 400, "(" * 100000, "-" * 100000 + "1",
         "~" * 400 + "5", "1+" * 5000 + "1", "2*" * 126 + "1", "2*" * 127 + "1", "2**" * 20 + "1", "(1<<63)*(1<<63)", "-(1<<126)-(1<<126)",
         "0-(1<<126)*2", "(-(1<<126)-(1<<126))/-1", "(-(1<<126)-(1<<126))%-1", "1e38", "1e39", "10**38", "17e37", "18e37", "1\x00", "1\xa0"]


def body(c):
    k = 12 if THOROUGH else 1
    units = ["h_calc.cpp", "h_calc2.cpp"]
    h, _ = build.harness("rel", "h_calc", units)
    a, _ = build.harness("asan", "h_calc", units)
    exe = build.binary(build.flavour("rel"), "primesum")
    psv = build.binary(build.flavour("rel"), "primesieve")
    jobs = []
    for i in range(8):
        for j, kind in enumerate(("128", "64", "32", "to128", "s128", "s64", "s32")):
            n = (2600 if kind in ("128", "to128", "s128") else 1200) * k
            jobs.append((h if (i + j) % 3 else a, kind, n, SEED * 1000 + 10 * i + j))

    def one(job):
        b, kind, n, seed = job
        bits = BITS[kind]
        rng = random.Random(seed)
        ex = (FIXED if seed % 100 < 20 else []) + expressions(rng, n, bits)
        inp = "".join("%s %s\n" % (kind, e.encode("latin1").hex() or "-") for e in ex)
        r = vlib.run([b], timeout=120 * k, stdin=inp)
        lines = r.out.split("\n")
        if r.timeout:
            at = [l for l in lines if l.startswith("AT ")][-1:]
            done = len([l for l in lines if l[:2] in ("ok", "er", "ex")])
            c.hang("calc", "the evaluation of %r does not end" % ex[min(done, len(ex) - 1)][:300], str(at))
            return
        if r.rc == -9:
            c.unsure("calculator run ended")
            return
        if len(lines) < len(ex) + 1 or lines[len(ex)] != "DONE":
            e = ex[min(len([l for l in lines if l[:2] in ("ok", "er", "ex")]), len(ex) - 1)]
            c.violation("calc-crash:" + kind, "evaluation of %r as %d-bit number: status %s %s" % (e[:300], bits, r.rc, r.san() or r.err[-300:]), r.err[-5000:])
            return
        for e, l in zip(ex, lines):
            res, v, p = calc.evaluate(e, bits)
            c.case(("calc", kind, e), sample="%s-bit %r -> %s" % (bits, e, l) if res == "ok" and len(e) > 12 and v not in (0, 1) else None)
            c.count("exact" if res == "ok" else "overflowing" if res == "over" else "malformed" if res == "bad" else "deep")
            ok = True
            if l.startswith("ok "):
                # a number: the exact one
                ok = (res in ("ok", "over") and v is not None and l == "ok %d" % v)
                if res == "deep":
                    ok = True
            elif l == "err":
                # a rejected expression: malformed, or some value does not fit, or nested very deeply
                ok = res in ("bad", "over", "deep") or p.maxdepth > 300
            else:
                ok = False
            if not ok:
                c.violation("calc:%s:%s" % (kind, e[:80].replace(" ", "_")), "%r as %d-bit number: got %r, expected %s %s" % (e[:400], bits, l[:200], res, v),
                            "echo '%s %s' | %s" % (kind, e.encode("latin1").hex(), b))
    vlib.pmap(one, jobs)

    # the command lines
    rng = c.rng
    todo = []
    for e in [f for f in FIXED if "\0" not in f and len(f) < 100000] + expressions(rng, 500 * k, 128):
        if "\0" not in e:
            todo.append(e)
    ev = {e: calc.evaluate(e, 128) for e in todo}
    for e in list(todo):
        # bring more expressions into the range where the sum is quickly known
        r, v, p = ev[e]
        if r == "ok" and abs(v) > 10 ** 6:
            f = "(%s)%%%d" % (e, rng.randrange(2, 10 ** 6))
            todo.append(f)
            ev[f] = calc.evaluate(f, 128)
    small = sorted({v for r, v, p in ev.values() if r == "ok" and 2 <= v <= 10 ** 7})
    truth = vlib.true_sums(small)

    def cli(e):
        r, v, p = ev[e]
        if p.maxdepth > 300 or c.late():
            return
        if r == "ok" and v > 10 ** 7:
            return
        plain = e[:1].isdigit() and hash_bit(e)
        # as an option value every expression is a number; as an argument of its own it starts with a digit
        x = vlib.run([exe, e if plain else "--number=" + e], timeout=60)
        c.case(("cli", e))
        c.count("primesum_runs")
        if x.timeout:
            c.hang("primesum", "primesum %r does not end" % e, "")
            return
        if x.rc == -9:
            return
        exp = ("0" if v < 2 else truth[v]) + "\n" if r == "ok" else None
        good = (x.rc == 0 and x.out == exp and not x.err) if r == "ok" else (x.rc == 1 and "Error" in x.err or x.rc == 1 and "Usage" in x.out)
        if r == "over" and v is not None and x.rc == 0 and v < 2:
            good = x.out == "0\n"
        if not good:
            c.violation("cli:" + e[:80].replace(" ", "_"), "primesum %r: status %s %r %r, expected %s %s" % (e, x.rc, x.out[:200], x.err[:200], r, exp), "")
    vlib.pmap(cli, todo)

    def cli2(e):
        r, v, p = ev[e]
        if p.maxdepth > 300 or c.late() or e.startswith("-"):
            return
        x = vlib.run([psv, "-q", "-c1", "(%s)" % e if r == "ok" and hash_bit(e) else e, "(%s)+2" % e], timeout=60)
        c.case(("primesieve", e))
        c.count("primesieve_runs")
        if x.timeout:
            c.hang("primesieve", "primesieve %r does not end" % e, "")
            return
        if x.rc == -9:
            return
        if r == "ok" and 0 <= v <= 2 ** 64 - 3:
            import xs
            n = sum(xs.is_prime(v + i) for i in range(3))
            good = x.rc == 0 and x.out in ("%d\n" % n, "Primes: %d\n" % n)
        elif r == "ok" and v > 2 ** 64 - 3 or r == "bad":
            good = x.rc != 0
        else:
            good = x.rc != 0 or r == "over"
        if not good:
            c.violation("primesieve:" + e[:80].replace(" ", "_"), "primesieve %r +2: status %s %r %r, expected %s %s" % (e, x.rc, x.out[:200], x.err[:200], r, v), "")
    vlib.pmap(cli2, [e for e in todo if len(e) < 4000][::2])


if __name__ == "__main__":
    vlib.main(body, "P08", "exploration",
              "expressions printed from random syntax trees (value from the tree), tuned to land within 2 of the type limits, mutated and random "
              "byte strings (value from an independent parser), for 32/64/128-bit types and both copies of the calculator; an accepted "
              "expression must equal the exact value, a rejected one must be malformed or not fit; each expression and type is one case")
