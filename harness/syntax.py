"""Token sequences: random programs and expressions, and broken ones."""
import random


def F(s):
    return (["f", s], s)


def V(s):
    return (["v", s], s)


def O(s):
    return (["o", s], s)


def S(s, r=None):
    out = []
    for ch in s:
        if r is not None and r.random() < 0.3:
            # some other way to write it
            n = ord(ch)
            ways = ["\\U%08x" % n] + ["\\u%04x" % n] * (n < 65536) + ["\\x%02x" % n, "\\%03o" % n] * (n < 256)
            out.append(r.choice(ways))
            continue
        out.append({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(
            ch, "\\x%02x" % ord(ch) if ord(ch) < 32 or 127 <= ord(ch) < 160 else
            "\\u%04x" % ord(ch) if ch in "\u2028\u2029" else ch))
    return (["s", s], '"' + "".join(out) + '"')


NASTY = ["\"", "\\", "\n", "\t", "\r", "\0", "\x7f", "\x85", "\xe9", "\xff", "\u03bb", "\u2028", "\U0001d11e", "'", "//",
         "#", "/*", "a", "n", "u", "x41", "]", "}", ".", " ", "{", "%s", "\ud83d", "$", "N{DASH}", "0", "\x1b"]


def nasty(r):
    return "".join(r.choice(NASTY) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))


BIG = ["1e22", "123456789012345678", "1e300", "1e-7", "0.1", "3.14159", "1e16", "9007199254740993", "1e100", "5e-324",
       "1.7976931348623157e308", "0.30000000000000004", "1e21", "1e15", "123456.789", "100000", "65536.5", "1e999"]


def big(s):
    from fractions import Fraction
    f = Fraction(float(s)) if float(s) < 1e308 * 10 else Fraction(10) ** 400
    if f.denominator <= 16384 and abs(f.numerator) <= 30000:
        return (["n", f.numerator, f.denominator], s)
    return (["n", float(s).hex(), 0], s)


NUMS = [(0, 1, "0"), (1, 1, "1"), (2, 1, "2"), (3, 1, "3"), (7, 1, "7"), (10, 1, "10"), (1, 2, "0.5"), (1, 2, ".5"),
        (5, 2, "2.5"), (1, 4, "0.25"), (20, 1, "2e1"), (1, 1, "1.0"), (2, 1, "002"), (50, 1, "0.5E+2"), (1, 2, "5e-1")]


def Nn(i):
    p, q, s = NUMS[i]
    return (["n", p, q], s)


class Syn:
    """Random phrases; lists of tokens."""

    def __init__(self, r, wrong=0.03, ops=True, wild=0.0):
        self.r, self.wrong, self.ops, self.wild = r, wrong, ops, wild

    def num(self):
        if self.wild and self.r.random() < self.wild:
            return [big(self.r.choice(BIG))]
        return [Nn(self.r.randrange(len(NUMS)))]

    def variable(self):
        return [V(self.r.choice(["X", "Y", "X", "Y", "Z", "_", "_X1", "__A"]))]

    def sep(self, parts, comma=","):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(O(comma))
            out += p
        return out

    def lit(self, d, ann=True, ctx="T"):
        r = self.r
        f = r.choice(["a", "b", "p", "q", ".print", "f", "~a", "x.y", "iff", "nota", "endof", "a1", "b_", "trueX"])
        out = [F(f)]
        n = r.choice([0, 0, 1, 1, 2, 3])
        if d > 0 and n:
            out += [O("(")] + self.sep([self.term(d - 1) for _ in range(n)]) + [O(")")]
        if ann and r.random() < 0.15:
            out += [O("[")] + self.sep([self.term(d - 1) if r.random() < 0.4 else self.lit(d - 1)
                                        for _ in range(r.choice([1, 1, 2]))]) + [O("]")]
        return out

    def par(self, x, p=0.0):
        return [O("(")] + x + [O(")")] if self.r.random() < p else x

    def list(self, d):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3])

        def el():
            x = self.term(d - 1)
            # a top level | needs parentheses
            return self.par(x, 1.0) if any(t[1] == "|" for t in x) and r.random() < 0.95 else x
        if n and r.random() < 0.4:
            return [O("[")] + self.sep([el() for _ in range(n + 1)], "|") + [O("]")]
        return [O("[")] + self.sep([el() for _ in range(n)]) + [O("]")]

    def term(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            c = r.random()
            if c < 0.3:
                return self.num()
            if c < 0.6:
                return self.variable()
            if c < 0.7:
                return [O(r.choice(["true", "false"]))]
            if c < 0.8 and self.wild:
                return [S(nasty(r), r)]
            if c < 0.8:
                return [S(r.choice(["", "a", "x y", "1", ".", "}", "//", "\"q\"", "\\", "#"]))]
            return self.lit(0)
        if c < 0.5:
            return self.lit(d)
        if c < 0.65:
            return self.list(d)
        if not self.ops:
            return self.lit(d)
        return self.par(self.arith(d), 0.2) if c < 0.87 else self.par(self.bool(d, "B"), 0.2)

    def arith(self, d):
        """An expression where numbers are expected."""
        r = self.r
        if r.random() < self.wrong:
            return self.term(1)
        if d <= 0 or r.random() < 0.25:
            return self.num() if r.random() < 0.5 else self.variable()
        c = r.random()
        if c < 0.2:
            return [O(r.choice("+-"))] + self.par(self.arith(d - 1), 0.4)
        op = r.choice(["+", "-", "*", "/", "div", "mod", "**", "-", "*", "/"])
        return self.par(self.arith(d - 1), 0.25) + [O(op)] + self.par(self.arith(d - 1), 0.25)

    def bool(self, d, ctx):
        """A boolean expression; ctx L allows literals and = ."""
        r = self.r
        if r.random() < self.wrong:
            return self.term(1)
        c = r.random()
        if d <= 0 or c < 0.25:
            c = r.random()
            if ctx == "L" and c < 0.6:
                return self.lit(1)
            if c < 0.7:
                return [O(r.choice(["true", "false"]))]
            return self.variable()
        if c < 0.4:
            return [O("not")] + self.par(self.bool(d - 1, ctx), 0.4)
        if c < 0.65:
            op = r.choice(["&", "|"])
            return self.par(self.bool(d - 1, ctx), 0.25) + [O(op)] + self.par(self.bool(d - 1, ctx), 0.25)
        n = r.choice([1, 1, 1, 2])
        out = self.operand(d - 1, n)
        for _ in range(n):
            ops = ["<", "<=", "==", "\\==", ">=", ">"] + (["=", "=", "=", "=.."] if ctx == "L" else [])
            out = out + [O(r.choice(ops))] + self.operand(d - 1, n)
        return out

    def operand(self, d, n):
        r = self.r
        if n > 1 or r.random() < 0.6:
            return self.arith(d)
        x = self.term(d)
        return self.par(x, 1.0) if r.random() < 0.5 else x

    def cond(self, d):
        return self.bool(d, "L")

    def block(self, d):
        r = self.r
        out = [O("{")]
        n = r.choice([0, 1, 1, 2, 3])
        for i in range(n):
            x = self.stmt(d - 1)
            out += x
            if i < n - 1:
                if x[-1][1] != "}" or r.random() < 0.6:
                    out.append(O(";"))
            elif r.random() < 0.4:
                out.append(O(";"))
        return out + [O("}")]

    def stmt(self, d):
        r = self.r
        if d > 0 and r.random() < 0.3:
            k = r.choice(["while", "for", "if", "if"])
            out = [O(k), O("(")] + self.cond(2) + [O(")")] + self.block(d)
            if k == "if" and r.random() < 0.5:
                out += [O("else")] + self.block(d)
            return out
        c = r.random()
        if c < 0.65:
            s = [O(r.choice(["+", "-", "-+", "!", "!!", "?"]))]
            return s + (self.variable() if r.random() < 0.1 else self.lit(2))
        return self.cond(2)

    def body(self):
        r = self.r
        out = []
        n = r.choice([1, 1, 2, 3, 4])
        for i in range(n):
            x = self.stmt(2)
            out += x
            if i < n - 1 and (x[-1][1] != "}" or r.random() < 0.6):
                out.append(O(";"))
        return out

    def plan(self):
        r = self.r
        out = []
        if r.random() < 0.25:
            out += [O("@")] + self.lit(1)
        out.append(O(r.choice("+-") if r.random() < 0.3 else "+"))
        if r.random() < 0.7:
            out.append(O(r.choice("!!?")))
        ops, self.ops = self.ops, r.random() < 0.1
        out += self.lit(2)
        self.ops = ops
        if r.random() < 0.6:
            out += [O(":")] + self.cond(2)
        if r.random() < 0.85:
            out += [O("<-")] + self.body()
        return out + [O(".")]

    def decl(self, d=1):
        r = self.r
        c = r.random()
        if c < 0.22:
            ops, self.ops = self.ops, r.random() < 0.15
            x = self.lit(3)
            self.ops = ops
            return x + [O(".")]
        if c < 0.4:
            ops, self.ops = self.ops, r.random() < 0.1
            x = self.lit(2)
            self.ops = ops
            return x + [O(":-")] + self.cond(3) + [O(".")]
        if c < 0.5:
            return [O("!")] + self.lit(2) + [O(".")]
        if c < 0.56 and d > 0:
            out = [O("{"), O("begin")] + self.lit(1) + [O("}")]
            for _ in range(r.choice([0, 1, 2])):
                out += self.decl(d - 1)
            return out + [O("{"), O("end"), O("}")]
        return self.plan()

    def program(self):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 2, 3, 4])):
            out += self.decl()
        return out


ALL = ([O(x) for x in ["(", ")", "[", "]", "{", "}", ",", ";", ".", ":", ":-", "<-", "@", "|", "&", "not", "+", "-",
                       "-+", "!", "!!", "?", "*", "/", "**", "div", "mod", "<", "<=", "==", "\\==", ">=", ">", "=",
                       "=..", "true", "false", "if", "else", "while", "for", "begin", "end", "include", "|&|", "|||"]]
       + [F("a"), V("X"), Nn(1), S("s")])


def mutate(toks, r):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 2])):
        n = len(toks)
        c = r.random()
        i = r.randrange(n + 1)
        if c < 0.35 and n:
            del toks[min(i, n - 1)]
        elif c < 0.55:
            toks.insert(i, r.choice(ALL))
        elif c < 0.8 and n:
            toks[min(i, n - 1)] = r.choice(ALL)
        elif c < 0.9 and n > 1:
            i = min(i, n - 2)
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif n:
            j = min(n, i + r.randint(1, 4))
            toks[i:i] = toks[i:j]
    return toks


def render(toks, r):
    out = []
    for _, s in toks:
        out.append(s)
        out.append("\n" if r.random() < 0.08 else " ")
    return "".join(out)


def spec(toks):
    return [t[0] for t in toks]
