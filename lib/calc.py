"""Reference evaluation of the number expressions of primesum and primesieve."""


class Bad(Exception):
    """The expression is malformed or has no value."""


class Over(Exception):
    """A value does not fit."""


class Parser:
    # documented precedence and associativity
    BIN = {"|": (4, "L"), "&": (6, "L"), "<<": (9, "L"), ">>": (9, "L"), "+": (10, "L"), "-": (10, "L"), "*": (20, "L"),
           "/": (20, "L"), "%": (20, "L"), "**": (30, "R"), "^": (30, "R"), "e": (40, "R")}

    def __init__(self, s, bits):
        self.s, self.bits = s, bits
        self.i = 0
        self.over = False       # some intermediate value does not fit
        self.depth = 0
        self.maxdepth = 0

    def fit(self, v):
        if not -(1 << (self.bits - 1)) <= v < 1 << (self.bits - 1):
            self.over = True
            if abs(v) >> 4096:
                raise Over()
        return v

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\n\v\f\r":
            self.i += 1

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def op(self):
        self.ws()
        c = self.s[self.i:self.i + 2]
        if c in ("<<", ">>", "**"):
            return c, 2
        c = c[:1]
        if c in ("e", "E"):
            return "e", 1
        if c in ("|", "&", "+", "-", "*", "/", "%", "^"):
            return c, 1
        return None, 0

    def value(self):
        self.depth += 1
        self.maxdepth = max(self.depth, self.maxdepth)
        self.ws()
        c = self.peek()
        if c == "(":
            self.i += 1
            v = self.expr(0)
            self.ws()
            if self.peek() != ")":
                raise Bad("no )")
            self.i += 1
        elif c in ("+", "-", "~") and c:
            self.i += 1
            v = self.value()
            v = self.fit(-v if c == "-" else ~v if c == "~" else v)
        elif c and c in "0123456789":
            j = self.i
            if c == "0" and self.s[j + 1:j + 2] in ("x", "X") and self.s[j + 2:j + 3] and self.s[j + 2] in "0123456789abcdefABCDEF":
                k = j + 2
                while k < len(self.s) and self.s[k] in "0123456789abcdefABCDEF":
                    k += 1
                v = int(self.s[j + 2:k], 16)
            else:
                k = j
                while k < len(self.s) and self.s[k] in "0123456789":
                    k += 1
                v = int(self.s[j:k])
            self.i = k
            v = self.fit(v)
        else:
            raise Bad("value")
        self.depth -= 1
        return v

    def expr(self, minprec):
        v = self.value()
        while True:
            o, n = self.op()
            if o is None or self.BIN[o][0] < minprec:
                return v
            p, a = self.BIN[o]
            self.i += n
            w = self.expr(p + 1 if a == "L" else p)
            v = self.fit(apply(o, v, w, self))

    def run(self):
        v = self.expr(0)
        self.ws()
        if self.i != len(self.s):
            raise Bad("rest")
        return v


def power(b, n, ctx):
    if n < 0:
        raise Bad("exponent")
    if abs(b) > 1 and n > 4096:
        ctx.over = True
        raise Over()
    return b ** (n if abs(b) > 1 else n if b == 0 or n == 0 else 2 + n % 2)


def apply(o, v, w, ctx):
    if o == "|":
        return v | w
    if o == "&":
        return v & w
    if o in ("<<", ">>"):
        if not 0 <= w < ctx.bits:
            raise Bad("shift")
        return v << w if o == "<<" else v >> w
    if o == "+":
        return v + w
    if o == "-":
        return v - w
    if o == "*":
        return v * w
    if o in ("/", "%"):
        if w == 0:
            raise Bad("zero")
        q = abs(v) // abs(w)
        if (v < 0) != (w < 0):
            q = -q
        return q if o == "/" else v - q * w
    if o == "e":
        return v * ctx.fit(power(10, w, ctx))
    return power(v, w, ctx)


def evaluate(s, bits):
    """('ok', value), ('over', value or None) or ('bad', why): over may also be rejected."""
    p = Parser(s, bits)
    try:
        v = p.run()
    except Bad as e:
        return "bad", str(e), p
    except Over:
        return "over", None, p
    except RecursionError:
        return "deep", None, p
    if p.over:
        return "over", v, p
    return "ok", v, p


# ---- generation

def number(rng, bits):
    k = rng.random()
    if k < 0.35:
        v = rng.randrange(0, 20)
    elif k < 0.55:
        v = rng.randrange(0, 1 << rng.randrange(1, bits))
    elif k < 0.7:
        v = max(0, (1 << rng.randrange(0, bits)) + rng.randrange(-2, 3))
    elif k < 0.8:
        v = max(0, 10 ** rng.randrange(0, len(str(1 << (bits - 1)))) + rng.randrange(-1, 2))
    elif k < 0.9:
        v = (1 << (bits - 1)) - 1 - rng.randrange(0, 3)
    else:
        v = rng.randrange(0, 1000)
    f = rng.random()
    if f < 0.7:
        return "0" * rng.choice([0, 0, 0, 0, 1, 3]) + str(v), v
    h = "%x" % v if f < 0.85 else "%X" % v
    return rng.choice(["0x", "0X"]) + "0" * rng.choice([0, 0, 1]) + h, v


def tree(rng, depth, bits):
    """A random syntax tree: ('n', text, value), ('u', op, t), ('b', op, l, r)."""
    if depth <= 0 or rng.random() < 0.12:
        return ("n",) + number(rng, bits)
    k = rng.random()
    if k < 0.15:
        return ("u", rng.choice("+-~"), tree(rng, depth - 1, bits))
    o = rng.choice(["|", "&", "<<", ">>", "+", "-", "*", "/", "%", "**", "^", "e", "+", "-", "*", "/"])
    l = tree(rng, depth - 1, bits)
    if o in ("<<", ">>", "**", "^", "e") and rng.random() < 0.9:
        n = rng.randrange(0, {"<<": bits, ">>": bits, "e": bits * 3 // 10 + 1}.get(o, 12)) + (rng.random() < 0.03) * rng.randrange(-2, 200)
        n = max(n, 0)
        r = ("n", str(n), n)
        if o in ("<<", "**", "^", "e") and rng.random() < 0.7:
            n = rng.randrange(0, 10)
            l = ("n", str(n), n)
    else:
        r = tree(rng, depth - 1, bits)
    return ("b", o, l, r)


def text(rng, t, prec=0):
    """The tree as text, with parentheses where the documented precedence needs them."""
    sp = lambda: rng.choice(["", "", "", "", " ", "  ", "\t", "\n "])
    if t[0] == "n":
        s, p = t[1], 100
    elif t[0] == "u":
        s, p = t[1] + sp() + text(rng, t[2], 99), 99
    else:
        p, a = Parser.BIN[t[1]]
        o = t[1] if t[1] != "e" else rng.choice("eE")
        l = text(rng, t[2], p if a == "L" else p + 1)
        r = text(rng, t[3], p + 1 if a == "L" else p)
        # a hexadecimal number swallows a following e
        gap = " " if o in "eE" and "x" in l.lower() else sp()
        s = l + gap + o + sp() + r
    if p < prec or rng.random() < 0.06:
        s = "(" + sp() + s + sp() + ")"
    return s


def tree_value(t, ctx):
    if t[0] == "n":
        return ctx.fit(t[2])
    if t[0] == "u":
        v = tree_value(t[2], ctx)
        return ctx.fit({"+": v, "-": -v, "~": ~v}[t[1]])
    return ctx.fit(apply(t[1], tree_value(t[2], ctx), tree_value(t[3], ctx), ctx))


CHARS = "0123456789+-*/%^|&<>~()eExX abfF.,;#\t\"'=_!@"


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(4)
        i = rng.randrange(len(s) + 1)
        if k == 0:
            s.insert(i, rng.choice(CHARS))
        elif k == 1 and s:
            del s[min(i, len(s) - 1)]
        elif k == 2 and s:
            s[min(i, len(s) - 1)] = rng.choice(CHARS)
        else:
            j = min(len(s), i + rng.randrange(1, 5))
            s[i:i] = s[i:j]
    return "".join(s)
