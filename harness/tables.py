"""Rows for the table checks: inputs for parts of the implementation."""
import json, random, itertools

from terms import *

# kind of row -> module that judges it (default TermTable.tla)
MODULE = {}


class TermGen:
    def __init__(self, seed, nv=4, exprs=True, wild=True, ann=False, linked=True):
        self.r = random.Random(seed)
        self.vann = 0.04
        self.nv, self.exprs, self.wild, self.ann, self.linked = nv, exprs, wild, ann, linked

    def number(self):
        r = self.r
        c = r.random()
        if c < 0.7:
            return num(r.choice([0, 1, 2, 3, 7, -1, -2]))
        return num(*r.choice([(1, 2), (-1, 2), (5, 2), (3, 4), (1, 8)]))

    def leaf(self, ground=False):
        r = self.r
        c = r.random()
        if not ground and self.nv and c < 0.42:
            return var(r.randint(1, self.nv))
        if not ground and self.wild and c < 0.47:
            return W
        c = r.random()
        if c < 0.3:
            return self.number()
        if c < 0.4:
            return boo(r.random() < 0.5)
        if c < 0.55:
            return st(r.choice(["", "a", "ab", "1", "x y"]))
        if c < 0.62:
            return lst([])
        return atom(r.choice(["a", "b", "f", "~a"]))

    def expr(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            return self.number() if c < 0.2 or not self.nv else var(r.randint(1, self.nv))
        if c < 0.4:
            return un(r.choice("-+"), self.expr(d - 1))
        if c < 0.9:
            return bi(r.choice(["+", "-", "*", "/", "div", "mod"]), self.expr(d - 1), self.expr(d - 1))
        if c < 0.95:
            return bi(r.choice(["<", "==", ">="]), self.expr(d - 1), self.expr(d - 1))
        return un("not", boo(r.random() < 0.5))

    def term(self, d, ground=False):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.25:
            return self.leaf(ground)
        if c < 0.33 and self.exprs and not ground:
            return self.expr(2)
        if c < 0.68:
            return self.literal(d, ground)
        n = r.choice([0, 1, 1, 2, 2, 3])
        if self.linked and c < 0.86 and n:
            t = self.term(d - 1, ground) if r.random() < 0.5 else (
                var(r.randint(1, self.nv)) if self.nv and not ground else lst([self.term(d - 1, ground)]))
            for _ in range(n):
                t = cons(self.term(d - 1, ground), t)
            return t
        return lst([self.term(d - 1, ground) for _ in range(n)])

    def literal(self, d, ground=False):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3])
        a = []
        if self.ann and r.random() < 0.5:
            a = self.annots(d - 1, ground)
        return lit(r.choice(["f", "f", "g", "a"]), [self.term(d - 1, ground) for _ in range(n)], a)

    def annots(self, d, ground, n=None):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3]) if n is None else n
        out = []
        for _ in range(n):
            c = r.random()
            if not ground and self.nv and c < self.vann:
                out.append(var(r.randint(1, self.nv)))
            else:
                x = lit(r.choice(["s", "s", "t"]), [self.term(d - 1, ground) for _ in range(r.choice([0, 1, 1, 2]))],
                        self.annots(d - 1, ground) if d > 0 and r.random() < 0.25 else [])
                out.append(x)
        return out

    def mutate(self, t):
        """A term like t: some parts replaced."""
        r = self.r
        if r.random() < 0.12:
            return self.leaf()
        k = t[0]
        if k == "f":
            return ["f", t[1], [self.mutate(x) for x in t[2]], [self.mutate(x) if x[0] == "f" else x for x in t[3]]]
        if k == "l":
            q = [self.mutate(x) for x in t[1]]
            if q and r.random() < 0.3 and self.linked:
                n = r.randrange(1, len(q) + 1)
                s = lst(q[n:]) if r.random() < 0.6 or not self.nv else var(r.randint(1, self.nv))
                for x in reversed(q[:n]):
                    s = cons(x, s)
                return s
            return lst(q)
        if k == "c":
            return cons(self.mutate(t[1]), self.mutate(t[2]))
        return t


def small_universe():
    l0 = [num(1), num(2), num(1, 2), boo(True), boo(False), st("a"), st(""), var(1), var(2), var(3), W, atom("a"),
          atom("b"), lst([]), bi("+", num(1), num(1)), bi("-", var(1), num(1)), un("-", st("a")),
          bi("<", num(1), num(2))]
    l1 = list(l0)
    some = [num(1), var(1), var(2), W, atom("a"), boo(True), lst([])]
    for x in l0:
        l1.append(lit("f", [x]))
        l1.append(lst([x]))
    for x in some:
        for y in some:
            l1.append(lit("f", [x, y]))
            l1.append(lst([x, y]))
            l1.append(cons(x, y))
    l1.append(lit("a", [num(1)]))
    l1.append(cons(var(1), cons(num(1), var(2))))
    l1.append(cons(num(1), cons(num(1), lst([]))))
    l1.append(cons(var(1), cons(var(1), lst([var(3)]))))
    return l1


def uni_rows(seed, n, exhaustive):
    rows = []
    u = small_universe()
    pairs = [(x, y) for i, x in enumerate(u) for y in u[i:]]
    if not exhaustive:
        pairs = random.Random(seed).sample(pairs, min(len(pairs), n))
    for x, y in pairs:
        rows.append({"k": "uni", "prior": [], "x": x, "y": y, "nv": 3})
    for i in range(n):
        g = TermGen(seed * 7919 + i)
        r = g.r
        prior = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            prior.append([var(r.randint(1, 4)), g.term(r.choice([0, 1, 1, 2]))])
        d = r.choice([1, 2, 2, 3, 4])
        x = g.term(d)
        y = g.mutate(x) if r.random() < 0.65 else g.term(d)
        if r.random() < 0.5:
            x, y = y, x
        rows.append({"k": "uni", "prior": prior, "x": x, "y": y, "nv": 4})
    return rows


def ann_rows(seed, n, exhaustive=False):
    rows = []
    for i in range(n):
        g = TermGen(seed * 104729 + i, nv=3, exprs=i % 5 == 0, ann=True)
        r = g.r
        prior = [[var(r.randint(1, 3)), g.term(1)] for _ in range(r.choice([0, 0, 0, 1]))]
        q = g.literal(2, ground=r.random() < 0.5)
        q[3] = g.annots(2, r.random() < 0.6, r.choice([0, 1, 2, 2, 3, 3]))
        p = ["f", q[1], [g.mutate(x) for x in q[2]], []]
        pa = [g.mutate(x) if x[0] == "f" else x for x in q[3]]
        r.shuffle(pa)
        pa = pa[:r.randint(0, len(pa))]
        for j, a in enumerate(pa):
            # more general, so that the pairing matters
            if a[0] == "f" and a[2] and r.random() < 0.5:
                pa[j] = ["f", a[1], [var(r.randint(1, 3)) if r.random() < 0.6 else x for x in a[2]], a[3]]
            elif r.random() < 0.15:
                pa[j] = var(r.randint(1, 3))
        if r.random() < 0.15:
            pa += g.annots(1, False, 1)
        p[3] = pa
        x = r.random()
        if x < 0.04:
            p = var(r.randint(1, 3))
        elif x < 0.08:
            q = var(r.randint(1, 3))
        elif x < 0.14:
            p = g.term(2)
        if i % 4 == 1:
            p, q = puzzle(r)
        rows.append({"k": "ann", "prior": prior, "p": p, "q": q, "nv": 3})
    return rows


def puzzle(r):
    """Annotations of annotations that can be paired up in several ways, few or none of which fit."""
    nv = r.choice([1, 2, 2, 3])

    def args(ground, n):
        return [num(r.randint(1, 2)) if ground or r.random() < 0.25 else var(r.randint(1, nv)) for _ in range(n)]
    q = []
    for _ in range(r.choice([1, 2, 2, 3])):
        q.append(lit(r.choice("sst"), args(True, r.choice([0, 0, 1])),
                     [lit(r.choice("uuv"), args(True, r.choice([1, 1, 2])),
                          [lit("w", args(True, 1)) for _ in range(r.choice([0, 0, 0, 1, 2]))]) for _ in range(r.choice([0, 1, 2, 2, 3]))]))

    def loose(a):
        b = [loose(x) for x in r.sample(a[3], r.randint(min(1, len(a[3])), len(a[3])))]
        return lit(a[1], [x if r.random() < 0.3 else var(r.randint(1, nv)) for x in a[2]], b)
    p = [loose(a) for a in r.sample(q, r.randint(1, len(q)))]
    x = args(True, r.choice([0, 0, 1]))
    return lit("f", [y if r.random() < 0.3 else var(r.randint(1, nv)) for y in x], p), lit("f", x, q)


def ground_universe():
    l0 = [num(0), num(1), num(2), num(1, 2), boo(True), boo(False), st("a"), st(""), st("1"), atom("a"), atom("b"),
          lst([])]
    l1 = list(l0)
    for x in l0:
        l1.append(lit("f", [x]))
        l1.append(lst([x]))
        l1.append(cons(num(1), x))
    some = [num(1), num(2), boo(True), st("a"), atom("a"), lst([])]
    for x in some:
        for y in some:
            l1.append(lst([x, y]))
            l1.append(lit("f", [x, y]))
    l1 += [lit("a", [], [atom("x")]), lit("a", [], [atom("x"), atom("y")]), lit("a", [], [atom("y")]),
           lit("f", [num(1)], [lit("s", [num(1)])]), lit("f", [num(1)], [lit("s", [boo(True)])]), atom("~a"),
           lit("f", [lst([num(1)])]), lit("f", [lst([boo(True)])]), lit("f", [lit("f", [num(1)])]),
           lit("f", [lit("f", [boo(True)])]), lst([lst([num(1)])]), lst([lst([boo(True)])])]
    return l1


def cmp_rows(seed, n, exhaustive):
    rows = []
    u = ground_universe()
    rr = random.Random(seed)
    pairs = [(x, y) for i, x in enumerate(u) for y in u[i:]]
    if not exhaustive:
        pairs = rr.sample(pairs, min(n, len(pairs)))
    for x, y in pairs:
        rows.append({"k": "cmp", "a": x, "b": y, "sp": rr.randrange(10 ** 6)})
    for i in range(n):
        g = TermGen(seed * 15485863 + i, nv=0, exprs=False, wild=False, ann=i % 3 == 0)
        a = g.term(g.r.choice([1, 2, 3]), True)
        b = g.mutate(a) if g.r.random() < 0.6 else g.term(g.r.choice([1, 2, 3]), True)
        rows.append({"k": "cmp", "a": a, "b": b, "sp": rr.randrange(10 ** 6)})
    return rows


def sort_rows(seed, n, exhaustive=False):
    rows = []
    for i in range(n):
        g = TermGen(seed * 49979687 + i, nv=0, exprs=False, wild=False, linked=False)
        r = g.r
        k = r.randint(0, 7)
        kind = r.randrange(6)

        def el(kind, d=2):
            if kind == 0:
                return g.number()
            if kind == 1:
                return st(r.choice(["", "a", "b", "ab", "B", "10", "9", "~", " "]))
            if kind == 2:
                return atom(r.choice(["a", "b", "aB", "a1", "z", "~a"]))
            if kind == 3:
                return lit("f", [el(sub[0], d - 1), el(sub[1], d - 1)])
            if kind == 4:
                return lst([el(sub[0] if d > 0 else 0, d - 1) for _ in range(r.randint(0, 3))])
            return g.term(1, True)
        sub = [r.randrange(3), r.randrange(3)]
        q = [el(kind) for _ in range(k)]
        if q and r.random() < 0.4:
            q.append(r.choice(q))
        if r.random() < 0.08:
            q.append(g.term(1, True))
        rows.append({"k": "sort", "elems": q, "sp": r.randrange(10 ** 6)})
    return rows


def set_rows(seed, n, exhaustive=False):
    rows = []
    u = ground_universe()
    for i in range(n):
        g = TermGen(seed * 86028121 + i, nv=0, exprs=False, wild=False, ann=True)
        r = g.r
        q = []
        for _ in range(r.randint(1, 9)):
            c = r.random()
            if c < 0.35 or not q:
                q.append(lit(r.choice(["w", "f"]), [r.choice(u)], g.annots(1, True) if r.random() < 0.3 else []))
            elif c < 0.6:
                q.append(r.choice(q))
            else:
                x = g.mutate(r.choice(q))
                q.append(x if x[0] == "f" else lit("w", [x]))
        rows.append({"k": "set", "elems": q, "sp": r.randrange(10 ** 6)})
    return rows




def show(row):
    """A row as text, for reports."""
    import terms
    k = row.get("k")
    try:
        def t(x):
            return terms.rt(x)
        if k == "uni":
            return "unify(%s, %s) after %s: %s, then %s; exchanged: %s, then %s; undone: %s" % (
                t(row["x"]), t(row["y"]), [(t(a), t(b)) for a, b in row["prior"]], row.get("st"),
                [t(x) for x in row.get("vals", [])], row.get("st2"), [t(x) for x in row.get("vals2", [])], row.get("back"))
        if k == "lex":
            return "tokens of %r: %s, errors %s" % ("".join(row["text"]), [x[:2] for x in row.get("toks", [])], row.get("errs"))
        if k == "inc":
            return "files %s, from %s: %s, %s" % (
                [("/".join(x["at"]), x.get("text") or x.get("to") or " ".join(str(y[1]) for y in x.get("toks", []))) for x in row["fs"]],
                row["main"], row.get("st"), row.get("ast"))
        if k == "ann":
            return "unify_annotated(%s, %s) after %s: %s (%s solutions), then %s; undone: %s" % (
                t(row["p"]), t(row["q"]), [(t(a), t(b)) for a, b in row["prior"]], row.get("st"), row.get("n"),
                [t(x) for x in row.get("vals", [])], row.get("back"))
        if k == "cmp":
            d = {x: row[x] for x in row if x not in ("a", "b", "k", "sp")}
            return "comparing %s and %s: %s" % (t(row["a"]), t(row["b"]), d)
        if k == "print":
            return "program %r printed as %r, read again: %s" % (row["text"], row.get("printed"), row.get("st"))
        if k == "repr":
            return "term %s printed as %r, read as %s: %s" % (row["t"], row.get("printed"), row.get("again"), row.get("st"))
        if k == "host":
            return "registrations %s, program %r: after %d of them and after all: %s" % (
                [(a["level"], a["reg"]["name"], a["reg"]["kind"], a["reg"]["specs"] or a["reg"]["arity"], a["reg"]["res"],
                  "accepted" if a["ok"] else "refused") for a in row["adds"]], row["text"], row["cut"], row["runs"])
        if k in ("sort", "set"):
            d = {x: ([t(y) for y in row[x]] if isinstance(row[x], list) else row[x]) for x in row
                 if x in ("st", "sorted", "stored")}
            return "%s of %s: %s" % (k, [t(x) for x in row["elems"]], d)
    except Exception:
        pass
    return json.dumps(row)[:1500]


def parse_rows(seed, n, exhaustive=False):
    import syntax
    rows = []
    for i in range(n):
        r = random.Random(seed * 6700417 + i)
        g = syntax.Syn(r, wrong=r.choice([0, 0, 0.02, 0.1]))
        t = g.program() if r.random() < 0.7 else g.decl()
        if len(t) > 120:
            t = g.decl()
        if r.random() < 0.5:
            t = syntax.mutate(t, r)
        rows.append({"k": "parse", "toks": syntax.spec(t), "text": syntax.render(t, r), "maxe": r.choice([None, 1, 3])})
    if exhaustive:
        # every short sequence in a few places
        S = syntax
        A = [S.O(x) for x in ["(", ")", "[", "]", ",", "|", "&", "not", "-", "=", "<", "**", "true", "{", "}", ";", "!",
                              "if", ":-", ":", "<-", "."]] + [S.F("a"), S.V("X"), S.Nn(1)]
        places = [([], []), ([S.F("b"), S.O(":-")], [S.O(".")]), ([S.O("+"), S.F("e"), S.O("<-")], [S.O(".")]),
                  ([S.F("b"), S.O("(")], [S.O(")"), S.O(".")])]
        for pre, post in places:
            for k in (1, 2, 3):
                for m in itertools.product(A, repeat=k):
                    t = pre + list(m) + post
                    rows.append({"k": "parse", "toks": S.spec(t), "text": " ".join(x[1] for x in t), "maxe": None})
    return rows


def print_rows(seed, n, exhaustive=False):
    import syntax
    rows = []
    for i in range(n):
        r = random.Random(seed * 6700421 + i)
        g = syntax.Syn(r, wrong=0, wild=r.choice([0.05, 0.2]))
        t = g.program() if r.random() < 0.6 else g.decl()
        if len(t) > 120:
            t = g.decl()
        rows.append({"k": "print", "text": syntax.render(t, r)})
    if exhaustive:
        # every expression of up to two operators, in a term and in a condition
        A = ["1", "X", "(- 1)", "(- X)", "a", "true"]
        B = ["+", "-", "*", "/", "div", "mod", "**", "<", "==", ">=", "&", "|", "=", "=.."]
        U = ["", "-", "+", "not "]
        for form in ("b(Y) :- %s.", "+!g <- .p(%s).", "+!g <- %s.", "+!g : %s.", "+!g <- .p([%s]).", "+!g <- .p([a|%s]).",
                     "+!g <- while (%s) { a; b }.", "+!g <- if (%s) { a } else { b }; c.", "+!g <- ?q(%s)[s(%s)]."):
            for u in U:
                for x in A:
                    for o in B:
                        for y in A:
                            for v in U:
                                e = "%s%s %s %s%s" % (u, x, o, v, y)
                                rows.append({"k": "print", "text": form.replace("%s", e)})
                                rows.append({"k": "print", "text": form.replace("%s", "%s(%s %s %s%s)" % (u, x, o, v, y))})
            for x in A[:2]:
                for o in B:
                    for y in A[:3]:
                        for p in B:
                            rows.append({"k": "print", "text": form.replace("%s", "%s %s %s %s Z" % (x, o, y, p))})
                            rows.append({"k": "print", "text": form.replace("%s", "%s %s (%s %s Z)" % (x, o, y, p))})
    return rows


class ReprGen(TermGen):
    def leaf(self, ground=False):
        import syntax
        r = self.r
        c = r.random()
        if c < 0.25:
            return st(syntax.nasty(r))
        if c < 0.35:
            n = syntax.big(r.choice(syntax.BIG))[0]
            return ["n", n[1], -1 - n[2]] if n[2] <= 0 and r.random() < 0.3 else n
        if c < 0.45:
            return self.number()
        if c < 0.5:
            return num(*r.choice([(1000, 1), (-999, 1), (30000, 1), (999, 1024), (-1, 16384)]))
        if c < 0.58:
            return boo(r.random() < 0.5)
        if c < 0.65:
            return lst([])
        return atom(r.choice(["a", "b", "f", "~a", "nota", "truex", "x.y", "a_1", "modx", "iff"]))

    def arith(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return self.number()
        if r.random() < 0.2:
            return un(r.choice("-+"), self.arith(d - 1))
        return bi(r.choice(["+", "-", "*", "/", "div", "mod", "**"]), self.arith(d - 1), self.arith(d - 1))

    def term(self, d, ground=True):
        if d > 0 and self.exprs and self.r.random() < 0.1:
            return self.arith(2)
        return super().term(d, True)


def repr_rows(seed, n, exhaustive=False):
    import syntax
    rows = []
    for i in range(n):
        r = random.Random(seed * 6700427 + i)
        g = ReprGen(r.random(), nv=0, exprs=r.random() < 0.2, wild=False, ann=True)
        if r.random() < 0.25:
            t = st(syntax.nasty(r))
        else:
            t = g.term(r.choice([1, 2, 3]))
        rows.append({"k": "repr", "t": t, "use": r.choice(["fact", "arg"]), "sp": r.randrange(10 ** 6)})
    if exhaustive:
        # every string of one character of the first planes, and every pair of the awkward ones
        chars = [chr(c) for c in list(range(0x250)) + [0x3bb, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x1d11e, 0xd800, 0xdfff]]
        pairs = [a + b for a in syntax.NASTY for b in syntax.NASTY]
        for s in chars + pairs + ["\\" + c for c in chars]:
            for use in ("fact", "arg"):
                rows.append({"k": "repr", "t": st(s), "use": use, "sp": 0})
    return rows


MODULE.update({"parse": "GrammarTable.tla", "print": "GrammarTable.tla", "repr": "GrammarTable.tla"})


def expr_row(r, toks, use=None, env=None, bel=(), text=None):
    import syntax
    names = []
    for t, _ in toks:
        if t[0] == "v" and t[1] != "_" and t[1] not in names:
            names.append(t[1])
    env = [[n, t] for n, t in (env or {}).items() if n in names]
    return {"k": "expr", "toks": syntax.spec(toks), "text": text or syntax.render(toks, r), "names": names, "env": env,
            "bel": list(bel), "use": use or "arg", "sp": r.randrange(10 ** 6)}


def expr_rows(seed, n, exhaustive=False):
    import syntax
    S = syntax
    rows = []
    for i in range(n):
        r = random.Random(seed * 15485863 + i)
        use = r.choice(["arg", "arg", "arg", "goal", "unify", "fact", "cond", "cond", "cond", "ctx", "ctx", "rule", "while"])
        tg = TermGen(r.randrange(10 ** 9), nv=0, exprs=False, wild=False, ann=False, linked=True)
        g = S.Syn(r, wrong=r.choice([0, 0, 0.02, 0.08]))
        env = {}
        for v in ("X", "Y", "Z", "_X1", "__A"):
            c = r.random()
            if c < 0.55:
                env[v] = tg.number()
            elif c < 0.7:
                env[v] = boo(r.random() < 0.5)
            elif c < 0.85:
                env[v] = tg.term(2, True)
        bel = []
        if use in ("cond", "ctx", "rule", "while"):
            t = g.cond(r.choice([1, 2, 3]))
            bel = [lit(r.choice(["a", "b", "p", "q", "f"]), [r.choice([tg.number(), tg.leaf(True)])
                                                            for _ in range(r.choice([0, 1, 1, 2]))]) for _ in range(r.choice([0, 1, 2, 3]))]
        else:
            c = r.random()
            if use == "fact" and r.random() < 0.7:
                env = {}
                g.variable = g.num
            t = g.arith(r.choice([1, 2, 3])) if c < 0.6 else g.bool(r.choice([1, 2]), "T") if c < 0.85 else g.term(3)
        if len(t) > 40:
            t = g.arith(1)
        if r.random() < 0.05:
            t = S.mutate(t, r)
        # what ends the place where the expression stands
        if any(x[1] in (";", ".", "{", "}", "<-", ":-", ":", "@", "!", "!!", "?", "-+") for x in t) or not t:
            continue
        depth = 0
        for x in t:
            depth += {"(": 1, "[": 1, ")": -1, "]": -1}.get(x[1] if x[0][0] == "o" else "", 0)
            if depth < 0 or (depth == 0 and x[1] == ","):
                break
        else:
            rows.append(expr_row(r, t, use, env, bel))
    if exhaustive:
        r = random.Random(seed)
        ar = ["+", "-", "*", "/", "div", "mod", "**"]
        cm = ["<", "<=", "==", "\\==", ">=", ">"]
        vals = [(3, 1, "3"), (2, 1, "2"), (1, 2, "0.5")]

        def val(v):
            return (["n", v[0], v[1]], v[2])
        for o1 in ar + cm:
            for o2 in ar + cm:
                for m in itertools.product(vals, repeat=3):
                    for neg in range(4):
                        for use in ("arg", "fact", "vars", "cond"):
                            if use != "vars" and r.random() < 0.5:
                                continue
                            if use == "vars":
                                toks = [S.V("X"), S.O(o1), S.V("Y"), S.O(o2), S.V("Z")]
                            else:
                                toks = [val(m[0]), S.O(o1), val(m[1]), S.O(o2), val(m[2])]
                            if neg & 1:
                                toks = [S.O("-")] + toks
                            if neg & 2:
                                toks = toks[:-1] + [S.O("-"), toks[-1]]
                            if any(x[1] + y[1] in ("-+",) for x, y in zip(toks, toks[1:])):
                                continue
                            env = {k: num(v[0], v[1]) for k, v in zip("XYZ", m)}
                            u = "cond" if use == "vars" and (o1 in cm or o2 in cm) else "arg" if use == "vars" else use
                            rows.append(expr_row(r, toks, u, env, text=" ".join(x[1] for x in toks)))
        r.shuffle(rows)
    return rows


MODULE.update({"expr": "ExprTable.tla"})


SOUP = (list("abeExXY_019") + list("~.+-*/<>=|&!?\\\"#:;,@(){}[]") + list("  \n\n\t\r\f") + list("$%'^`é→") +
        ["true", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end", "/*", "*/", "//",
         "||", "|&|", "<-", "-+", "1e", "=.", "\\\"", "\r\n", "foo", "false", "\\=", "end", ".5", "~tr"])


def gap(r, glue=False):
    """Something between tokens."""
    c = r.random()
    if glue and c < 0.6:
        return ""
    if c < 0.5:
        return " "
    if c < 0.58:
        return "\t"
    if c < 0.68:
        return r.choice(["\n", "\r\n", "\n\n  ", " \n\t"])
    if c < 0.8:
        return r.choice(["// x (\n", "# \"\n", "//\n", "/// */\n", "#/* foo\n", " # a // b\n\n"])
    if c < 0.93:
        return r.choice(["/* a */", "/**/", "/***/", "/* \n */", "/*/ b */", "/* // */", "/* \" */", "/*\n\n* /\n x*/",
                         "/* é → */", "/*a*//*b*/", "/* /* */", "/* *\n/ */", "/*\t*/"])
    return "  "


def lex_rows(seed, n, exhaustive=False):
    import syntax
    S = syntax
    rows = []

    def row(text, r):
        rows.append({"k": "lex", "file": r.choice(["a.asl", "x:y", "d/e.asl"]), "text": list(text),
                     "first": r.choice([1, 1, 1, 7]), "via": r.choice(["stream", "tokenize"])})
    for i in range(n):
        r = random.Random(seed * 86028121 + i)
        if r.random() < 0.5:
            row("".join(r.choice(SOUP) for _ in range(r.choice([1, 2, 3, 4, 6, 8, 12, 20]))), r)
            continue
        g = S.Syn(r)
        t = g.program() if r.random() < 0.7 else g.term(2) + g.bool(2, "L")
        if len(t) > 60:
            a = r.randrange(len(t) - 50)
            t = t[a:a + 50]
        text = gap(r, True)
        glue = r.random()
        for tok in t:
            x = tok[1]
            if tok[0][0] == "s" and r.random() < 0.5:
                x = '"' + "".join(r.choice(["a", "\\n", "\\\\", '\\"', "/*", "//", "é", " ", "#", "\\u0041", "(", "'"])
                                  for _ in range(r.choice([0, 1, 3]))) + '"'
            text += x + gap(r, r.random() < glue)
        if r.random() < 0.2:
            k = r.randrange(len(text) + 1)
            text = text[:k] + r.choice(SOUP) + text[k + r.choice([0, 1]):]
        row(text, r)
    if exhaustive:
        r = random.Random(seed)
        al = list("aX_1.e+-*/<=|&!:\\\"#~ \n@é")
        for k in (1, 2, 3):
            for m in itertools.product(al, repeat=k):
                row("".join(m), r)
        for w in ("true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"):
            for a in ["", "a", "_", "1", "~", ".", "x.", "X", "(", "~."]:
                for b in ["", "a", "_", "1", "~", ".", ".x", "X", "(", "é"]:
                    row(a + w + b, r)
    return rows


MODULE.update({"lex": "LexTable.tla"})


def relative(r, start, to):
    """A way of spelling the path of to (names) seen from the directory start (names)."""
    k = 0
    while k < len(start) and k < len(to) - 1 and start[k] == to[k] and r.random() < 0.9:
        k += 1
    out = [".."] * (len(start) - k) + list(to[k:])
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        i = r.randrange(len(out))
        out[i:i] = r.choice([["."], ["."], [""], ["d", ".."], ["e", ".."], ["..", "d"], ["l1"], ["d", "f", "..", ".."]])
    return "/".join(out).lstrip("/")


def inc_rows(seed, n, exhaustive=False):
    import syntax
    S = syntax
    F, V, O, N = S.F, S.V, S.O, S.Nn
    rows = []
    for i in range(n):
        r = random.Random(seed * 49979687 + i)
        dirs = [[]] + [d for d in (["d"], ["d", "f"], ["e"]) if r.random() < 0.6 or (d == ["d"])]
        if ["d", "f"] in dirs and ["d"] not in dirs:
            dirs.append(["d"])
        nf = r.choice([1, 2, 3, 3, 4, 4, 5, 5])
        paths = []
        for k in range(nf):
            p = r.choice(dirs) + [r.choice(["a", "b", "c", "m"]) + r.choice([".asl", ".asl", ""])]
            if p not in paths:
                paths.append(p)
        fs = [{"at": d, "k": "dir"} for d in dirs if d]
        links = []
        for k in range(r.choice([0, 0, 1, 1, 2])):
            at = r.choice(dirs) + [r.choice(["l1", "l2"])]
            if any(x["at"] == at for x in links):
                continue
            c = r.random()
            to, top = r.choice(paths) if c < 0.45 else r.choice(dirs), True
            if r.random() < 0.15:
                to = r.choice([["nowhere"], at, at[:-1] + ["l1"], at[:-1] + ["l2"]])
            if r.random() < 0.5:
                to, top = [".."] * (len(at) - 1) + list(to), False
            links.append({"at": at, "k": "link", "to": to, "top": top})
        serial = [0]
        cyc = r.choice([0, 0, 0, 0.1, 0.4])
        budget = [r.choice([3, 5, 8])]
        pinc, pblock = r.choice([(0.55, 0.15), (0.55, 0.15), (0.3, 0.35), (0.12, 0.45)])
        nest = r.choice([1, 1, 2, 3])

        def include(k):
            frm = paths[k]
            later = paths[k + 1:]
            c = r.random()
            to = r.choice(paths) if not later or r.random() < cyc else r.choice(later)
            if to in paths[:k + 1] and cyc == 0:
                return None
            if c < 0.06:
                to = r.choice(dirs) + [r.choice(["none", "d", "", "a", "e"])]
            elif c < 0.2 and links:
                to = r.choice(links)["at"] + r.choice([[], [], to[-1:]])
            start = frm[:-1]
            name = "@/" + "/".join(to) if r.random() < 0.15 else relative(r, start, to)
            if r.random() < 0.02:
                name += "/"
            return [O("{"), O("include"), O("("), S.S(name), O(")"), O("}")]

        def item(k, depth=None):
            depth = nest if depth is None else depth
            c = r.random()
            if c < pinc and budget[0] > 0:
                x = include(k)
                if x:
                    budget[0] -= 1
                    return x
            serial[0] += 1
            me = [F("b%d" % serial[0])]
            if r.random() < pblock and depth > 0:
                out = [O("{"), O("begin"), F("ns"), O("}")]
                for _ in range(r.choice([0, 1, 2, 2, 3])):
                    out += item(k, depth - 1)
                return out + [O("{"), O("end"), O("}")]
            c = r.random()
            if c < 0.35:
                return me + [O(".")]
            if c < 0.6:
                return me + [O(":-"), F("c"), O("&"), V("X"), O("<"), O("("), N(1), O("+"), N(2), O(")"), O(".")]
            if c < 0.7:
                return [O("!")] + me + [O(".")]
            return [O("+"), O("!")] + me + [O("<-"), O("+")] + me + [O(".")]
        for k, p in enumerate(paths):
            toks = []
            for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
                toks += item(k)
            if r.random() < 0.03:
                toks = S.mutate(toks, r) if toks else [O("{"), O("end"), O("}")]
            fs.append({"at": p, "k": "file", "toks": S.spec(toks), "text": " ".join(x[1] for x in toks)})
        used = [x["at"] for x in fs]
        fs += [x for x in links if x["at"] not in used]
        main = relative(r, [], paths[0]) if r.random() < 0.5 else "/".join(paths[0])
        if r.random() < 0.15:
            main = "@/" + "/".join(paths[0])
        # the spelling must lead there
        q, at, ok = main.split("/"), [], True
        for x in q[:-1]:
            if x in ("", ".", "@"):
                continue
            at = at[:-1] if x == ".." else at + [x]
            if at and at not in dirs or any(z["at"] == at for z in links):
                ok = False
        if not ok or at + q[-1:] != paths[0] or ".." in q and q[0] == "..":
            main = "/".join(paths[0])
        rows.append({"k": "inc", "fs": fs, "main": main})
    return rows


MODULE.update({"inc": "IncTable.tla"})


# --- host actions ---------------------------------------------------------

class HostGen:
    NAMES = [".f", ".g", ".print", "f", "p", "q", ".x.y"]
    SPECS = ["any", "int", "float", "str", "tuple", "lit", "bool", "text"]

    def __init__(self, r):
        self.r = r
        self.t = TermGen(r.randrange(10 ** 9), nv=0, exprs=False, wild=False, linked=False)
        self.linked = r.random() < 0.15
        self.t.linked = self.linked
        self.nv = r.choice([1, 2, 2, 3])
        self.n = 0
        self.names = r.sample(self.NAMES, r.choice([1, 2, 2, 3]))

    def value(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            return r.choice([num(1), num(2), num(3), num(5, 2), num(-1), num(-5, 2), num(0)])
        if c < 0.8:
            return r.choice([atom("a"), st("a"), st("7"), boo(True), boo(False), lst([]), lst([num(1), num(2)]), lit("f", [num(1)])])
        return self.t.term(2, ground=True)

    def arg(self):
        r = self.r
        c = r.random()
        if c < 0.4:
            return var(r.randint(1, self.nv))
        if c < 0.47:
            return bi(r.choice(["+", "*", "-"]), var(r.randint(1, self.nv)) if r.random() < 0.7 else num(2), num(r.randint(1, 3)))
        if c < 0.51:
            return W
        if c < 0.57:
            return lit("f", [var(r.randint(1, self.nv))], [atom("s")] if r.random() < 0.3 else [])
        if c < 0.6 and self.linked:
            return cons(self.value(), var(r.randint(1, self.nv)))
        return self.value()

    def reg(self):
        r = self.r
        self.n += 1
        g = {"id": self.n, "name": r.choice(self.names), "kind": r.choice(["function", "function", "predicate", "procedure", "raw", "raw"]),
             "specs": [], "arity": 0, "single": False}
        if g["kind"] == "raw":
            g["arity"] = r.choice([-1, -1, 0, 1, 1, 2])
            g["res"] = ["vals", [self.value() for _ in range(r.choice([0, 1, 1, 2, 3]))]]
            return g
        c = r.random()
        g["specs"] = [r.choice(["any", "any", "any", "int", "float", "str"] if c < 0.5 else self.SPECS)
                      for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            g["specs"].insert(r.randint(0, len(g["specs"])), r.choice(["env", "agent"]))
        g["single"] = len(g["specs"]) == 1 and r.random() < 0.5
        real = [i for i, s in enumerate(g["specs"], 1) if s not in ("env", "agent")]
        c = r.random()
        if c < 0.04:
            g["res"] = ["raise"]
        elif g["kind"] == "procedure":
            g["res"] = [r.choice(["yes", "no", "none"])]
        elif g["kind"] == "function":
            g["res"] = ["arg", r.choice(real)] if real and r.random() < 0.5 else ["val", self.value()]
        else:
            g["res"] = ["eq", r.choice(real), self.value()] if real and r.random() < 0.6 else [r.choice(["yes", "yes", "no", "none"])]
        return g

    def atomq(self, adds):
        """A query: usually of something that exists."""
        r = self.r
        c = r.random()
        if c < 0.62 and adds:
            g = r.choice(adds)["reg"]
            n = g["arity"] if g["kind"] == "raw" else sum(s not in ("env", "agent") for s in g["specs"]) + (g["kind"] == "function")
            if n < 0 or r.random() < 0.1:
                n = r.choice([0, 1, 1, 2, 3])
            args = [self.arg() for _ in range(n)]
            # arguments that often fit
            real = [s for s in g["specs"] if s not in ("env", "agent")]
            fit = {"int": lambda: num(r.choice([1, 2, 3])), "float": lambda: num(*r.choice([(1, 1), (5, 2)])), "tuple": lambda: lst([self.value() for _ in range(2)]),
                   "lit": lambda: lit(r.choice("ab"), [self.value()] if r.random() < 0.5 else []), "bool": lambda: boo(r.random() < 0.5),
                   "text": lambda: st(r.choice(["a", "b"]))}
            for i, s in enumerate(real):
                if s in fit and i < n and r.random() < 0.6:
                    args[i] = fit[s]()
            if g["kind"] == "function" and args and r.random() < 0.7:
                args[-1] = var(r.randint(1, self.nv))
            return ["term", lit(g["name"], args)]
        if c < 0.72:
            return ["eq", var(r.randint(1, self.nv)), self.value()]
        if c < 0.86:
            return ["term", lit(r.choice(["p", "q"]), [var(r.randint(1, self.nv))])]
        if c < 0.93:
            return ["term", lit("r", [var(r.randint(1, self.nv))])]
        return ["term", lit(r.choice(self.NAMES), [self.arg() for _ in range(r.choice([0, 1, 2]))])]

    def query(self, adds, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            return self.atomq(adds)
        if c < 0.75:
            return ["and", self.query(adds, d - 1), self.query(adds, d - 1)]
        if c < 0.88:
            return ["or", self.query(adds, d - 1), self.query(adds, d - 1)]
        return ["not", self.query(adds, d - 1)]

    def row(self):
        r = self.r
        depth = r.choice([1, 2, 2, 3, 3])
        adds = [{"level": r.randint(1, depth), "reg": self.reg()} for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7]))]
        rules = []
        if r.random() < 0.4:
            nv, self.nv = self.nv, 2
            rules = [{"head": lit("r", [var(1)]), "q": self.query([a for a in adds if a["reg"]["name"] != "r"], 1), "nv": 2}]
            self.nv = nv
        noloop(rules)
        cut = len(adds)
        if r.random() < 0.35:
            cut = r.randrange(len(adds) + 1)
        return {"k": "host", "adds": adds, "cut": cut, "depth": depth, "facts": [lit("p", [num(1)]), lit("q", [atom("a")])], "rules": rules,
                "ctx": self.query(adds, 2), "body": [self.query(adds, r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 2, 3]))],
                "nv": self.nv, "linked": self.linked, "sp": r.randrange(10 ** 6)}


def noloop(rules):
    for x in rules:
        def walk(q):
            if q[0] == "term" and q[1][1] == "r":
                return ["term", lit("p", [var(1)])]
            return [q[0]] + [walk(y) if isinstance(y, list) and y and y[0] in ("term", "and", "or", "not", "eq") and q[0] != "eq" and q[0] != "term" else y
                             for y in q[1:]]
        x["q"] = walk(x["q"])


def small_registries():
    """Every chain of up to three levels of the actions .f/0, .f/1, .f/2 and .f/*."""
    ars = [-1, 0, 1, 2]
    sets = [[a for i, a in enumerate(ars) if m >> i & 1] for m in range(16)]
    for depth in (1, 2, 3):
        for chain in itertools.product(sets, repeat=depth):
            adds, n = [], 0
            for i, s in enumerate(chain, 1):
                for a in s:
                    n += 1
                    adds.append({"level": i, "reg": {"id": n, "name": ".f", "kind": "raw", "specs": [], "arity": a, "single": False,
                                                     "res": ["vals", [num(1)]]}})
            calls = [["term", lit(".f", [num(1)] * k)] for k in range(4)]
            yield {"k": "host", "adds": adds, "cut": n, "depth": depth, "facts": [], "rules": [], "nv": 1, "linked": False, "sp": 0,
                   "ctx": ["or", ["and", calls[0], ["term", lit("no", [])]],
                           ["or", ["and", calls[1], ["term", lit("no", [])]],
                            ["or", ["and", calls[2], ["term", lit("no", [])]], ["or", calls[3], ["eq", var(1), num(1)]]]]], "body": []}


def host_rows(seed, n, exhaustive=False):
    r = random.Random(seed)
    rows = []
    if exhaustive:
        rows += list(small_registries())
    else:
        rows += r.sample(list(small_registries()), min(800, n // 8))
    # the same with some of the registrations made between two programs
    for x in [y for y in rows if len(y["adds"]) > 1]:
        if r.random() < 0.5:
            order = list(range(len(x["adds"])))
            r.shuffle(order)
            rows.append(dict(x, adds=[x["adds"][i] for i in order], cut=r.randrange(1, len(order))))
    while len(rows) < n:
        rows.append(HostGen(r).row())
    return rows


MODULE.update({"host": "HostTable.tla"})


# --- reports of failures ----------------------------------------------------

class Layout:
    """Text whose positions are known: lines from 1, columns from 0."""

    def __init__(self, r):
        self.r, self.text, self.line, self.col = r, [], 1, 0

    def put(self, s):
        self.text.append(s)
        for c in s:
            if c == "\n":
                self.line, self.col = self.line + 1, 0
            else:
                self.col += 1

    def gap(self):
        self.put(self.r.choice([" ", " ", " ", "\n", "\n  ", "  ", " /* x */ ", " // y\n", "\n# z\n"]))

    def here(self):
        return [self.line, self.col]


# statements that fail or raise an error; U is never bound, N is 0, S is "a"
FAILS = [".fail", "-q(U)(", "+q(U)", "!nosuch", "!nosuch(1, U)", "!!nosuch", "?nosuch(1)", "?nosuch(U)", "1 < S", "U < 1", "U == 1", "1 == U",
         "U", "N", ".length(1, L)", ".send(nobody, tell, x)", ".send(a, nothing, x)", ".send(U, tell, x)", ".boom", ".boom2(1)", "X1 = 1 / N",
         "X1 = 1 + S", "-+q(U)", "+q(1 / N)", "!sub0(1 / N)", ".nth(7, [1], E)", ".min([], M)", "-U", "+U", "!U", "?U",
         "?q(1 / N)", "-q(1 / N)", "false", "not true", "nosuch", "nosuch(1) & true", "not (1 = U)", "N > 1", ".print(1 / N)", "-+U", "!!U",
         "1 = 2", ".substring(1, 2, 3)", ".wait(U)", ".abolish(U)", ".length(U, 1)", ".max([1, S], M)", ".sort(U, W)"]
BADCOND = ["U < 1", "1 < S", "N", "U", ".boom", "q(0) & U < 1", "not (U < 1)", "X2 = 1 / N & q(X2)", ".length(1, L)", "1 == U", ".boom2(1)"]
LOADBAD = ["+!x <- Y = 1 + \"a\".", "+!x : 1 <- .print.", "q(1 / 0).", "+!x <- .print(1 / 0).", "+!x : \"s\" <- .print.", "+!x : a + 1 <- .print.",
           "y(X) :- 3.", "+!x <- +b(1 - \"z\").", "+!x <- -3.", "+!x <- if (3) { .print(1) }.", "+!x : not 3.", "!g(\"a\" * 2).", "+q(1 / 0) <- .print."]
SYNBAD = ["+!x <- a b.", "q(1", "+!x <- .", "+!x : <- a.", "q(]).", "+!x <- if (a) b.", "+!x <- a; ; b.", "!.", "+x <- !.", "q :- .", "@ +!x.", "+!x <- while { }."]


class ReportGen:
    def __init__(self, r):
        self.r = r
        self.o = Layout(r)
        self.n = 0
        self.np = r.choice([1, 1, 2, 3])
        self.failing = r.random() < 0.85
        self.vars = 0
        self.depth = 0

    def body(self, d, k, sub=True):
        """Statements in order of the text; what they are is returned."""
        r, o = self.r, self.o
        out = []
        m = r.choice([1, 1, 2, 2, 3, 4])
        for i in range(m):
            if i:
                o.put(";")
            o.gap()
            out.append(self.stmt(d, k, sub))
        o.gap() if r.random() < 0.5 else None
        return out

    def stmt(self, d, k, sub):
        r, o = self.r, self.o
        c = r.random()
        start = o.here()

        def at():
            return start + o.here()
        if c < 0.12 and self.failing:
            s = r.choice(self.fails)
            o.put(s)
            return ["bad", at()]
        if c < 0.45 or d <= 0:
            self.n += 1
            if r.random() < 0.75:
                o.put(r.choice([".print(%d)", ".print(\n%d)", ".print( %d )"]) % self.n)
                return ["ok", self.n]
            o.put(r.choice(["+q(%d)", "-z(%d)", "Y%d = 1", "?q(0)", "q(0)", "not z(%d)", "-+w(%d)", ".length([], 0)", "true"]).replace("%d", str(self.n)))
            return ["nop"]
        if c < 0.6 and sub and k < self.np:
            j = r.randint(k + 1, self.np)
            c2 = r.random()
            if c2 < 0.25 and self.loops == 0:
                o.put("!!p%d" % j)
                return ["later", j]
            if c2 < 0.45:
                # (a fact that is already there is added again)
                o.put("+e%d" % j)
                return ["sub", j]
            o.put("!p%d" % j)
            return ["sub", j]
        if c < 0.78:
            cond = r.choice(["true", "false"] * 3 + ["bad"]) if self.failing else r.choice(["true", "false"])
            o.put("if")
            o.gap()
            o.put("(")
            o.put(r.choice({"true": ["true", "q(0)", "not z", "q(A%d)" % self.n, "1 < 2"], "false": ["false", "z(1)", "not q(0)", "N > 0", "N == S"],
                            "bad": BADCOND}[cond]))
            o.put(")")
            a = at()
            o.gap()
            o.put("{")
            b1 = self.block(d, k, sub)
            o.put("}")
            b2 = []
            if r.random() < 0.5:
                o.gap()
                o.put("else")
                o.gap()
                o.put("{")
                b2 = self.block(d, k, sub)
                o.put("}")
            return ["if", cond, a, b1, b2]
        n = r.choice([0, 1, 2, 2, -1 if self.failing else 1])
        self.n += 1
        i = self.n
        if c < 0.9:
            o.put("for")
            o.gap()
            o.put("(")
            o.put(r.choice(BADCOND) if n < 0 else r.choice(["false", "z(I%d)" % i]) if n == 0 else
                  r.choice([".range(%d, I%d)" % (n, i), ".member(I%d, [%s])" % (i, ", ".join("a" * n))]))
            o.put(")")
            a = at()
            o.gap()
            o.put("{")
            self.loops += 1
            b = self.block(d, k, sub)
            self.loops -= 1
            o.put("}")
            return ["for", n, a, b]
        if n > 0 and self.loops:
            n = 0
        o.put("while")
        o.gap()
        o.put("(")
        o.put(r.choice(BADCOND) if n < 0 else "false" if n == 0 else "not u%d(%d)" % (i, n))
        o.put(")")
        a = at()
        o.gap()
        o.put("{")
        self.loops += 1
        if n > 0:
            # (the plan is carried out once, as is the loop)
            o.put("?v%d(C%d); -+v%d(C%d + 1); +u%d(C%d + 1);" % (i, i, i, i, i, i))
            self.counters.append(i)
            self.whiles.add(k)
        b = self.block(d, k, sub)
        self.loops -= 1
        o.put("}")
        return ["while", n, a, b]

    def block(self, d, k, sub):
        if self.r.random() < 0.1:
            self.o.gap()
            return []
        return self.body(d - 1, k, sub)

    def row(self):
        r, o = self.r, self.o
        self.loops, self.counters, self.whiles = 0, [], set()
        self.fails = [s for s in FAILS if s.count("(") == s.count(")")]
        plans = []
        bad = []
        for k in range(1, self.np + 1):
            if r.random() < 0.3:
                o.gap()
            o.put("+!p%d" % k)
            if r.random() < 0.4:
                o.gap()
                o.put(": true")
            o.gap()
            o.put("<-")
            o.gap()
            o.put("N = 0; S = \"a\"; ")
            plans.append(self.body(r.choice([0, 1, 1, 2, 3]), k))
            o.put(".\n")
            o.put("+e%d <- !p%d.\n" % (k, k))
        if r.random() < 0.08:
            start = o.here()
            if r.random() < 0.6:
                o.put(r.choice(LOADBAD))
                bad = start + o.here()
                o.put("\n")
            else:
                # (noticed at the latest at the next declaration)
                o.put(r.choice(SYNBAD))
                o.put("\nq(9).\n")
                bad = start + [o.line + 1, 0]
        o.put("q(0). b(0). sub0(1).\n")
        for i in self.counters:
            o.put("v%d(0). u%d(0).\n" % (i, i))
        o.put("+!sub0(_).\n!p1.\n")
        return {"k": "report", "text": "".join(o.text), "plans": plans, "bad": bad, "cmd": False}


def report_rows(seed, n, exhaustive=False):
    r = random.Random(seed)
    rows = []
    while len(rows) < n:
        g = ReportGen(r)
        x = g.row()
        # a counted loop works once only
        if g.whiles and any(y in g.whiles for y in called_twice(x["plans"])):
            continue
        rows.append(x)
    for x in r.sample(rows, min(n // 30, 250)):
        x["cmd"] = True
    return rows


def called_twice(plans):
    """Plans that may be carried out more than once."""
    count = {1: 1}

    def walk(b, times):
        for x in b:
            if x[0] in ("sub", "later"):
                count[x[1]] = count.get(x[1], 0) + times
            elif x[0] == "if":
                walk(x[3], times)
                walk(x[4], times)
            elif x[0] in ("for", "while"):
                walk(x[3], times * max(1, x[1]))
    for k, b in enumerate(plans, 1):
        walk(b, count.get(k, 0))
    return [k for k, c in count.items() if c > 1]


MODULE.update({"report": "ReportTable.tla"})


ACTS = {".member": 2, ".range": 2, ".length": 2, ".nth": 3, ".min": 2, ".max": 2, ".sort": 2, ".concat": None, ".substring": 3,
        ".atom": 1, ".literal": 1, ".list": 1, ".number": 1, ".string": 1, ".structure": 1, ".ground": 1, ".my_name": 1,
        ".floor": 2, ".ceil": 2, ".round": 2, ".tail": 2, ".print": None, ".findall": 3, ".count": 2, ".sum": 3, ".fail": 0,
        ".date": 3, ".time": 3}
WEIGHTS = {".member": 5, ".range": 2, ".length": 3, ".nth": 4, ".min": 4, ".max": 4, ".sort": 4, ".concat": 5, ".substring": 5,
           ".ground": 3, ".findall": 6, ".count": 4, ".sum": 4, ".print": 2, ".floor": 2, ".ceil": 2, ".round": 2, ".tail": 2,
           ".fail": 0.1, ".date": 0.3, ".time": 0.3}
TEXTS = ["", "a", "b", "aa", "ab", "aaa", "aba", "abab", "aaaa", "1", "1.5", "11", "true", "[", "f(1)", "a b"]


class ActGen:
    """A call of a built-in action with arguments that mostly lie in its domain."""

    def __init__(self, r, name=None):
        self.r = r
        self.name = name or r.choices(list(ACTS), [WEIGHTS.get(n, 1) for n in ACTS])[0]
        self.nv = r.choice([1, 2, 3, 3])
        text = self.name in (".concat", ".substring", ".print")
        self.t = TermGen(r.randrange(10 ** 9), nv=self.nv, exprs=r.random() < 0.25, wild=r.random() < 0.3,
                         ann=r.random() < 0.25, linked=not text)

    def number(self):
        r = self.r
        c = r.random()
        if c < 0.5:
            return num(r.choice([0, 1, 1, 2, 2, 3, 4]))
        if c < 0.75:
            return r.choice([num(1, 2), num(3, 2), num(5, 2), num(-1, 2), num(-3, 2), num(-5, 2), num(7, 4), num(-7, 4), num(-1), num(-2), num(-3)])
        if c < 0.9:
            return self.v()
        return bi(r.choice("+-*"), r.choice([num(1), num(2), self.v()]), num(r.choice([1, 2, 3])))

    def v(self):
        return var(self.r.randint(1, self.nv))

    def text(self):
        return st(self.r.choice(TEXTS))

    def any(self, d=2):
        r = self.r
        c = r.random()
        if c < 0.25:
            return self.v()
        if c < 0.35:
            return self.text()
        if c < 0.5:
            return self.number()
        return self.t.term(r.choice([0, 1, d]), ground=r.random() < 0.4)

    def listof(self, f, n=None):
        r = self.r
        e = [f() for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4]) if n is None else n)]
        if e and r.random() < 0.3:
            e.append(r.choice(e))
            r.shuffle(e)
        if self.t.linked and e and r.random() < 0.25:
            k = r.randint(1, len(e))
            out = lst(e[k:]) if r.random() < 0.75 else self.v()
            for x in reversed(e[:k]):
                out = cons(x, out)
            return out
        return lst(e)

    def result(self, f):
        """A result argument: mostly unbound."""
        r = self.r
        c = r.random()
        if c < 0.55:
            return self.v()
        if c < 0.63:
            return W
        return f()

    def comparable(self):
        r = self.r
        k = r.choice(["num", "num", "str", "atom", "lit", "list", "mix"])

        def one():
            if r.random() < 0.04:
                return self.v()
            if k == "num":
                return r.choice([num(1), num(2), num(3), num(1, 2), num(-1), num(5, 2)])
            if k == "str":
                return self.text()
            if k == "atom":
                return atom(r.choice("abcd"))
            if k == "lit":
                return lit("f", [num(r.randint(1, 3)), atom(r.choice("ab"))][:r.choice([1, 2, 2, 2])], [atom("s")] if r.random() < 0.1 else [])
            if k == "list":
                return lst([num(r.randint(1, 2)) for _ in range(r.choice([0, 1, 1, 2]))])
            return self.any(1)
        return one

    def world(self):
        r = self.r
        facts, rules = [], []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            f = lit(r.choice("ppq"), [r.choice([num(1), num(2), num(3, 2), atom("a"), st("x"), lit("f", [num(1)]), lst([num(1), num(2)]), boo(True)])
                                      for _ in range(r.choice([1, 1, 2]))], [atom("s")] if r.random() < 0.15 else [])
            if f not in facts:
                facts.append(f)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            h = lit(r.choice("pr"), [r.choice([var(1), var(2), num(1), lit("f", [var(1)])])])
            q = r.choice([["eq", var(1), r.choice([num(1), num(4), atom("b"), lit("f", [var(2)])])], ["term", lit("q", [var(1)])], ["term", lit("q", [var(1), var(2)])],
                          ["or", ["eq", var(1), num(5)], ["eq", var(1), num(6)]], ["term", bi("<", num(1), num(2))],
                          ["not", ["term", lit("q", [var(1)])]]])
            rules.append({"head": h, "q": q, "nv": 2})
        return facts, rules

    def query(self, facts, rules):
        r = self.r
        c = r.random()
        if c < 0.05:
            return self.any(1)
        if c < 0.1:
            return boo(r.random() < 0.6)
        heads = facts + [x["head"] for x in rules]
        if not heads or c < 0.15:
            return lit(r.choice("pqr"), [self.v()])
        h = r.choice(heads)
        return lit(h[1], [self.v() if r.random() < 0.75 else W if r.random() < 0.3 else self.any(1) if r.random() < 0.3 or x[0] == "v" else x for x in h[2]],
                   h[3] if r.random() < 0.5 else [])

    def args(self, facts, rules):
        r, n = self.r, self.name
        if n == ".member":
            l = self.listof(lambda: self.any(1))
            els = l[1] if l[0] == "l" else []
            return [self.result(lambda: self.t.mutate(r.choice(els)) if els and r.random() < 0.7 else self.any(1)), l]
        if n == ".range":
            return [self.number(), self.result(self.number)]
        if n == ".length":
            return [r.choice([lambda: self.listof(self.any), self.text, lambda: self.t.literal(1)])(), self.result(self.number)]
        if n == ".nth":
            return [self.number(), self.listof(lambda: self.t.term(1, ground=r.random() < 0.9)), self.result(lambda: self.any(1))]
        if n in (".min", ".max"):
            f = self.comparable()
            return [self.listof(f), self.result(f)]
        if n == ".sort":
            f = self.comparable()
            return [self.listof(f), self.result(lambda: self.listof(f))]
        if n == ".tail":
            return [self.listof(lambda: self.t.term(1, ground=r.random() < 0.9)), self.result(lambda: self.listof(lambda: self.any(1)))]
        if n == ".concat":
            if r.random() < 0.5:
                a = [self.listof(lambda: self.t.term(1, ground=True), r.choice([0, 1, 1, 2])) for _ in range(r.choice([0, 1, 2, 2, 3]))]
                return a + [self.result(lambda: lst(sum((x[1] for x in a if x[0] == "l"), [])) if r.random() < 0.5 else self.listof(self.any))]
            a = [r.choice([self.text, self.text, self.number, lambda: self.t.term(1, ground=True)])() for _ in range(r.choice([1, 2, 2, 3]))]
            return a + [self.result(self.text)]
        if n == ".substring":
            f = lambda: self.text() if r.random() < 0.8 else self.any(1)
            return [f(), f(), self.result(lambda: num(r.randint(0, 2)))]
        if n in (".floor", ".ceil", ".round"):
            return [self.number(), self.result(self.number)]
        if n == ".print":
            return [self.any() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if n == ".findall":
            q = self.query(facts, rules)
            return [self.any(1) if r.random() < 0.4 else self.v() if r.random() < 0.5 else lit("t", [self.v(), self.v()]), q,
                    self.result(lambda: self.listof(lambda: self.any(1)))]
        if n == ".count":
            return [self.query(facts, rules), self.result(self.number)]
        if n == ".sum":
            return [self.number() if r.random() < 0.4 else self.v(), self.query(facts, rules), self.result(self.number)]
        if n == ".my_name":
            return [self.result(lambda: r.choice([atom("a"), atom("b"), st("a"), lit("a", [], [atom("s")])]))]
        return [self.any() for _ in range(ACTS[n])]

    def row(self):
        r = self.r
        facts, rules = self.world() if self.name in (".findall", ".count", ".sum") else ([], [])
        args = self.args(facts, rules)
        # sometimes anything
        for i in range(len(args)):
            if r.random() < 0.05:
                args[i] = self.any()
        prior = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            i = r.randrange(len(args)) if args else 0
            v = self.v()
            if any(p[0] == v for p in prior):
                continue
            if args and r.random() < 0.3 and args[i][0] not in "vwue":
                # an argument through a variable
                prior.append([v, args[i]])
                args[i] = v
            else:
                prior.append([v, self.any(1)])
        # (no infinite terms from the start)
        prior = [p for p in prior if p[1][0] == "v" or all(v > p[0][1] for v in variables(p[1]))]
        how = [x[0] not in ("v", "w", "u", "e") and r.random() < 0.4 for x in args]
        return {"k": "act", "name": self.name, "args": args, "prior": prior, "nv": self.nv, "facts": facts, "rules": rules, "how": how}


def variables(t):
    if t[0] == "v":
        return {t[1]}
    return set().union(*[variables(x) for y in t[1:] for x in (y if isinstance(y, list) and y and isinstance(y[0], list) else [y])
                         if isinstance(x, list) and x])


def act_rows(seed, n, exhaustive=False):
    r = random.Random(seed)
    rows = []
    if exhaustive:
        # every action with arguments from a small set
        small = [num(1), num(0), num(3, 2), num(-1), boo(True), st("a"), st("aa"), st(""), atom("a"), lit("f", [num(1)]), lst([]), lst([num(1)]),
                 lst([num(2), num(1), num(2)]), lst([st("a"), st("aa")]), var(1), var(2), cons(num(1), var(1)), cons(var(1), lst([var(1)])), W,
                 lit("p", [var(1)]), lit("q", [var(1), var(2)])]
        for name, k in ACTS.items():
            for j in [k] if k is not None else [0, 1, 2, 3] if name == ".print" else [1, 2, 3]:
                every = list(itertools.product(small, repeat=j))
                for args in every if j < 3 else r.sample(every, 4000):
                    rows.append({"k": "act", "name": name, "args": list(args), "prior": [], "nv": 2, "rules": [], "how": [False] * j,
                                 "facts": [lit("p", [num(1)]), lit("p", [num(2)]), lit("q", [num(1), atom("a")])]})
    while len(rows) < n:
        rows.append(ActGen(r).row())
    return rows


MODULE["act"] = "ActTable.tla"
