"""Scenarios: programs written as text with choices, and random changes to them.

A scenario is text; <<a||b||c>> stands for one of the alternatives (nested ones are
allowed), <<#n:a||b>> for the same choice at every place with the same n.  Lines
starting with '---' separate the programs of several agents ('--- name'), lines
starting with '@' direct the run:
  @call AGENT TRIGGER TERM     the host posts an event (in order, at a random moment)
  @build i j k                 which programs are built, in this order (default: all once)
  @timing                      the clock moves
  @keep                        no random changes
The parser below is the machinery's own; the program handed to the interpreter is
rendered from the same structure the specification reads.
"""
import copy, random, re
import exchange
from terms import *

TOK = re.compile(r'\s*(?:(//[^\n]*)|(:-|<-|-\+|!!|\\==|==|=\.\.|<=|>=|\*\*|[-+!?:;,.()\[\]{}|&<>=*/@])'
                 r'|("(?:[^"\\]|\\.)*")|(\d+(?:\.\d+)?)|(\.?[A-Za-z_]\w*))')


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = re.compile(r'\s*(\.[a-z_]\w*)').match(text, i)
        if m and (not out or out[-1][1] not in ("name",) or True) and not (out and out[-1][2] == m.start(1) and out[-1][1] == "num"):
            out.append((m.group(1), "name", m.end()))
            i = m.end()
            continue
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError(text[i:i + 40])
        i = m.end()
        if m.group(1):
            continue
        k = "op" if m.group(2) else "str" if m.group(3) else "num" if m.group(4) else "name"
        out.append((m.group(m.lastindex), k, m.end()))
    out.append(("", "end", i))
    return out


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.v = {}

    def peek(self, d=0):
        return self.t[min(self.i + d, len(self.t) - 1)][0]

    def kind(self):
        return self.t[self.i][1]

    def take(self):
        x = self.t[self.i]
        self.i += 1
        return x[0]

    def want(self, s):
        if self.peek() != s:
            raise SyntaxError("want %r at %r" % (s, " ".join(x[0] for x in self.t[self.i:self.i + 12])))
        self.i += 1

    def have(self, s):
        if self.peek() == s and self.kind() in ("op", "name"):
            self.i += 1
            return True
        return False

    # ---- terms
    def args(self, close):
        out = []
        if not self.have(close):
            out.append(self.term())
            while self.have(","):
                out.append(self.term())
            self.want(close)
        return out

    def atomic(self):
        k = self.kind()
        x = self.take()
        if k == "num":
            from fractions import Fraction
            f = Fraction(x)
            return num(f.numerator, f.denominator)
        if k == "str":
            return st(x[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        if k == "name":
            if x in ("true", "false"):
                return boo(x == "true")
            if x == "_":
                return list(W)
            if x[0].isupper() or x[0] == "_":
                self.v.setdefault(x, len(self.v) + 1)
                return var(self.v[x])
            a = self.args(")") if self.have("(") else []
            n = self.args("]") if self.have("[") else []
            return lit(x, a, n)
        if x == "(":
            t = self.term()
            self.want(")")
            return t
        if x == "[":
            els = []
            if self.have("]"):
                return lst([])
            els.append(self.term())
            while self.have(","):
                els.append(self.term())
            t = None
            if self.have("|"):
                t = self.term()
            self.want("]")
            if t is None:
                return lst(els)
            for e in reversed(els):
                t = cons(e, t)
            return t
        if x == "-":
            t = self.atomic()
            return num(-t[1], t[2]) if t[0] == "n" else un("-", t)
        raise SyntaxError("term at %r" % x)

    def power(self):
        t = self.atomic()
        if self.have("**"):
            t = bi("**", t, self.power())
        return t

    def binary(self, ops, sub):
        t = sub()
        while self.peek() in ops and self.kind() in ("op", "name"):
            op = self.take()
            t = bi(op, t, sub())
        return t

    def product(self):
        return self.binary(("*", "/", "div", "mod"), self.power)

    def sum(self):
        return self.binary(("+", "-"), self.product)

    def term(self):
        t = self.sum()
        if self.peek() in ("<", "<=", ">", ">=", "==", "\\==") and self.kind() == "op":
            op = self.take()
            t = bi(op, t, self.sum())
        return t

    # ---- queries
    def query(self):
        q = self.conj()
        while self.have("|"):
            q = ["or", q, self.conj()]
        return q

    def conj(self):
        q = self.neg()
        while self.have("&"):
            q = ["and", q, self.neg()]
        return q

    def neg(self):
        if self.have("not"):
            return ["not", self.neg()]
        if self.peek() == "(":
            # a query in parentheses, or a term
            save = self.i
            try:
                self.want("(")
                q = self.query()
                self.want(")")
                if self.peek() not in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "\\==", "="):
                    return q
            except SyntaxError:
                pass
            self.i = save
        t = self.term()
        if self.have("="):
            return ["eq", t, self.term()]
        return self.asq(t)

    def asq(self, t):
        if t[0] == "b":
            return ["true"] if t[1] else ["false"]
        if t[0] == "f" and t[1].startswith("."):
            return ["act", t[1], t[2]]
        return ["term", t]

    # ---- statements
    def stmt(self):
        x = self.peek()
        if x == "{":
            raise SyntaxError("block")
        if self.kind() == "op" and x in ("+", "-", "-+", "!", "!!", "?"):
            self.take()
            return [{"+": "add", "-": "del", "-+": "rep1", "!": "ach", "!!": "later", "?": "test"}[x], self.atomic()]
        if x == "if":
            self.take()
            self.want("(")
            q = self.query()
            self.want(")")
            a = self.block()
            b = []
            if self.have("else"):
                b = [self.stmt()] if self.peek() == "if" else self.block()
            return ["if", q, a, b]
        if x in ("while", "for"):
            self.take()
            self.want("(")
            q = self.query()
            self.want(")")
            return [x, q, self.block()]
        q = self.query()
        if q[0] == "act":
            n, a = q[1], q[2]
            if n == ".send" and len(a) == 3:
                return ["send"] + a
            if n == ".broadcast" and len(a) == 2:
                return ["bcast"] + a
            if n == ".abolish" and len(a) == 1:
                return ["abolish", a[0]]
            if n == ".wait":
                ev = []
                if a and a[0][0] == "s":
                    ev = event(a[0][1])
                    a = a[1:]
                return ["wait", ev, a]
        return ["q", q]

    def block(self):
        self.want("{")
        out = []
        while not self.have("}"):
            out.append(self.stmt())
            if self.peek() == ";":
                self.take()
        return out

    def body(self):
        out = []
        while not self.have("."):
            out.append(self.stmt())
            if self.peek() == ";":
                self.take()
        return out

    # ---- programs
    def program(self):
        p = prog()
        while self.kind() != "end":
            self.v = {}
            x = self.peek()
            label = ""
            if x == "@":
                self.take()
                label = self.take()
                x = self.peek()
            if self.kind() == "op" and x == "!":
                self.take()
                p["goals"].append(self.atomic())
                self.want(".")
            elif self.kind() == "op" and x in ("+", "-"):
                trig = self.take()
                if self.peek() in ("!", "?"):
                    trig += self.take()
                head = self.atomic()
                ctx = ["true"]
                if self.have(":"):
                    ctx = self.query()
                body = []
                if self.have("<-"):
                    body = self.body()
                else:
                    self.want(".")
                p["plans"].append(plan(trig, head, ctx, [] if body == [["q", ["true"]]] else body, label))
            else:
                head = self.atomic()
                if self.have(":-"):
                    p["rules"].append(rule(head, self.query()))
                else:
                    p["beliefs"].append(head)
                self.want(".")
        return p


def event(s):
    m = re.match(r"([-+][!?]?)(.*)$", s, re.S)
    return [m.group(1), Parser(m.group(2)).atomic()]


def expand(text, r):
    """Takes the choices."""
    chosen = {}

    def go(i, depth):
        """Returns the list of alternatives' texts and the end."""
        out = [""]
        while i < len(text):
            if text.startswith("<<", i):
                name = None
                m = re.compile(r"#(\w+):").match(text, i + 2)
                j = i + 2
                if m:
                    name = m.group(1)
                    j = m.end()
                alts, j = go(j, depth + 1)
                if name is None:
                    k = r.randrange(len(alts))
                else:
                    k = chosen.setdefault(name, r.randrange(len(alts))) % len(alts)
                out[-1] += alts[k]
                i = j
            elif depth and text.startswith(">>", i):
                return out, i + 2
            elif depth and text.startswith("||", i):
                out.append("")
                i += 2
            else:
                out[-1] += text[i]
                i += 1
        return out, i
    return go(0, 0)[0][0]


def read(text, r):
    """A scenario text to a case (without script)."""
    text = re.sub(r"\bend\b", "fin", expand(text, r))
    names, parts, dirs = ["a"], [[]], []
    first = True
    for line in text.split("\n"):
        if line.startswith("---"):
            nm = line[3:].strip()
            if first and not "".join(parts[0]).strip():
                names[0] = nm
            else:
                names.append(nm)
                parts.append([])
            first = False
        elif line.startswith("@") and line[1:].split()[:1] and line[1:].split()[0] in ("call", "build", "timing", "keep"):
            dirs.append(line[1:].split(None, 1))
        else:
            parts[-1].append(line)
    progs = [Parser("\n".join(p)).program() for p in parts]
    # the texts that are sent
    hidden = None
    if "*" in names:
        i = names.index("*")
        hidden = progs.pop(i)
        names.pop(i)
    return names, progs, dirs, hidden


# ---- instrumentation and changes ------------------------------------------

def bodies(p):
    """All statement lists of the program with their plan: nested ones too."""
    out = []

    def go(pl, b, d):
        out.append((pl, b, d))
        for x in b:
            if x[0] == "if":
                go(pl, x[2], d + 1)
                go(pl, x[3], d + 1)
            elif x[0] in ("while", "for"):
                go(pl, x[2], d + 1)
    for pl in p["plans"]:
        go(pl, pl["body"], 0)
    return out


def allvars(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "v" and isinstance(x[1], int):
            out.add(x[1])
        elif x and x[0] == "wait":
            for y in x[2]:
                allvars(y, out)
        else:
            for y in x:
                allvars(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            allvars(y, out)
    return out


def instrument(p, r, tag, prob=0.45):
    for pl in p["plans"]:
        vs = sorted(allvars(pl, set()))
        work = [b for q, b, d in bodies(p) if q is pl]
        for b in work:
            k = 0
            while k <= len(b):
                end = k == len(b)
                if r.random() < (0.75 if end else prob) and not (k and b[k - 1][0] == "q" and b[k - 1][1][:2] == ["act", ".rec"]):
                    tag += 1
                    use = [var(i) for i in vs]
                    if len(use) > 7:
                        use = r.sample(use, 7)
                    b.insert(k, ["q", ["act", ".rec", [num(tag)] + use]])
                    k += 1
                k += 1
    return tag


def term_slots(p):
    """Places of terms: (list, index, variables' clause, must stay a literal)."""
    out = []

    def t(l, i, clause, islit=False):
        x = l[i]
        out.append((l, i, clause, islit))
        k = x[0]
        if k == "f":
            for a in (x[2], x[3]):
                for j in range(len(a)):
                    t(a, j, clause)
        elif k == "l":
            for j in range(len(x[1])):
                t(x[1], j, clause)
        elif k == "c":
            t(x, 1, clause)
            t(x, 2, clause)
        elif k == "u":
            t(x, 2, clause)
        elif k == "e":
            t(x, 2, clause)
            t(x, 3, clause)

    def q(l, i, clause):
        x = l[i]
        k = x[0]
        if k == "term":
            t(x, 1, clause, True)
        elif k == "eq":
            t(x, 1, clause)
            t(x, 2, clause)
        elif k in ("and", "or"):
            q(x, 1, clause)
            q(x, 2, clause)
        elif k == "not":
            q(x, 1, clause)
        elif k == "act":
            for j in range(len(x[2])):
                t(x[2], j, clause, x[1] in (".findall", ".sum") and j == 1 or x[1] == ".count" and j == 0)

    def b(l, clause):
        for x in l:
            k = x[0]
            if k in ("add", "del", "ach", "later", "test", "abolish", "rep1"):
                t(x, 1, clause, True)
            elif k == "q":
                q(x, 1, clause)
            elif k == "if":
                q(x, 1, clause)
                b(x[2], clause)
                b(x[3], clause)
            elif k in ("while", "for"):
                q(x, 1, clause)
                b(x[2], clause)
            elif k == "send":
                for j in (1, 2, 3):
                    t(x, j, clause, j == 3)
            elif k == "bcast":
                for j in (1, 2):
                    t(x, j, clause, j == 2)
            elif k == "wait":
                for j in range(len(x[2])):
                    t(x[2], j, clause)
    for i in range(len(p["beliefs"])):
        t(p["beliefs"], i, None, True)
    for i in range(len(p["goals"])):
        t(p["goals"], i, None, True)
    for ru in p["rules"]:
        w = ["", ru["head"], ru["q"]]
        out_n = len(out)
        t(w, 1, ru, True)
        q(w, 2, ru)
        for k in range(out_n, len(out)):
            if out[k][0] is w:
                out[k] = (ru, "head", ru, True) if out[k][1] == 1 else None
    for pl in p["plans"]:
        w = ["", pl["head"], pl["ctx"]]
        out_n = len(out)
        t(w, 1, pl, True)
        q(w, 2, pl)
        for k in range(out_n, len(out)):
            if out[k] and out[k][0] is w:
                out[k] = (pl, "head", pl, True) if out[k][1] == 1 else None
        b(pl["body"], pl)
    return [x for x in out if x]


def query_slots(p):
    out = []

    def q(l, i):
        out.append((l, i))
        x = l[i]
        if x[0] in ("and", "or"):
            q(x, 1)
            q(x, 2)
        elif x[0] == "not":
            q(x, 1)
    for ru in p["rules"]:
        q(ru, "q")
    for pl in p["plans"]:
        q(pl, "ctx")
    for pl, b, d in bodies(p):
        for x in b:
            if x[0] in ("if", "while", "for"):
                q(x, 1)
            elif x[0] == "q" and x[1][0] != "act":
                q(x, 1)
    return out


def consts(p):
    out = []
    for l, i, c, islit in term_slots(p):
        x = l[i]
        if x[0] in ("n", "s", "b") or (x[0] == "f" and not x[2] and not x[3] and not islit):
            out.append(x)
    return out or [num(1)]


def renumber(p, clause, a, b):
    """Variable a becomes b within the clause."""
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "v" and x[1] == a:
                x[1] = b
            else:
                if x and x[0] == "wait":
                    for y in x[2]:
                        go(y)
                else:
                    for y in x:
                        go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
    go(clause)


def occurs_q(q):
    return q


def mutate(p, r):
    """One random change; returns its name or None."""
    k = r.choice(["const", "const", "term", "term", "merge", "split", "wild", "delstmt", "dupstmt", "swapstmt", "wrap",
                  "plans", "plandel", "plandup", "ctx", "query", "query", "annot", "annot", "fact", "fact", "kind", "fail", "movestmt",
                  "nest", "expr"])
    slots = term_slots(p)
    vslots = [s for s in slots if s[0][s[1]][0] == "v"]
    free = [s for s in slots if not s[3]]
    bs = [x for x in bodies(p) if x[1]]

    def pick(q):
        return r.choice(q) if q else None
    if k == "const":
        s = pick([s for s in slots if s[0][s[1]][0] in ("n", "s", "b")
                  or (not s[3] and s[0][s[1]][0] == "f" and not s[0][s[1]][2])])
        if not s:
            return
        x = s[0][s[1]]
        if x[0] == "n" and r.random() < 0.6:
            s[0][s[1]] = num(x[1] + r.choice([-1, 1]), x[2]) if x[2] == 1 else num(x[1], 1)
        else:
            s[0][s[1]] = copy.deepcopy(r.choice(consts(p)))
    elif k == "term":
        s = pick(free)
        if not s:
            return
        vs = sorted(allvars(s[2], set())) if s[2] is not None else []
        pool = [copy.deepcopy(r.choice(consts(p)))]
        if vs:
            pool += [var(r.choice(vs)), var(r.choice(vs)), var(vs[-1] + 1)]
        pool += [copy.deepcopy(r.choice(free)[0:1] and (lambda z: z[0][z[1]])(r.choice([y for y in free if y[2] is s[2]])))]
        s[0][s[1]] = r.choice(pool)
    elif k == "merge":
        cl = pick([s[2] for s in vslots if s[2] is not None])
        vs = sorted(allvars(cl, set())) if cl is not None else []
        if len(vs) < 2:
            return
        a, b = r.sample(vs, 2)
        renumber(p, cl, a, b)
    elif k in ("split", "wild"):
        s = pick([s for s in vslots if s[2] is not None])
        if not s:
            return
        s[0][s[1]] = var(max(allvars(s[2], set())) + 1) if k == "split" else list(W)
    elif k in ("delstmt", "dupstmt", "swapstmt", "wrap", "movestmt", "fail"):
        if not bs:
            return
        pl, b, d = r.choice(bs)
        i = r.randrange(len(b))
        if k == "delstmt":
            del b[i]
        elif k == "dupstmt":
            b.insert(r.randrange(len(b) + 1), copy.deepcopy(b[i]))
        elif k == "swapstmt":
            j = r.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        elif k == "fail":
            b.insert(i, ["q", r.choice([["false"], ["act", ".fail", []], ["term", atom("nope")]])])
        elif k == "wrap":
            if d > 2:
                return
            x = b[i]
            qs = [copy.deepcopy(l[j]) for l, j in query_slots(p)]
            q = r.choice(qs + [["true"], ["act", ".member", [var(max(allvars(pl, set()) or [0]) + 1), lst([num(1), num(2)])]]])
            b[i] = r.choice([["if", q, [x], []], ["if", q, [], [x]], ["for", q, [x]]])
        else:
            pl2, b2, d2 = r.choice([z for z in bodies(p)])
            x = b[i]
            if any(b2 is y for _, y, _ in bodies(prog(plans=[plan("+", atom("x"), body=[x])]))):
                return
            del b[i]
            b2.insert(r.randrange(len(b2) + 1), x)
    elif k == "plans":
        if len(p["plans"]) < 2:
            return
        i, j = r.sample(range(len(p["plans"])), 2)
        p["plans"][i], p["plans"][j] = p["plans"][j], p["plans"][i]
    elif k == "plandel":
        if len(p["plans"]) < 2:
            return
        del p["plans"][r.randrange(len(p["plans"]))]
    elif k == "plandup":
        if not p["plans"]:
            return
        pl = copy.deepcopy(r.choice(p["plans"]))
        pl["label"] = ""
        vs = sorted(allvars(pl, set()))
        if len(vs) > 1:
            a, b = r.sample(vs, 2)
            renumber(p, pl["head"] if r.random() < 0.5 else pl, a, b)
        if r.random() < 0.4:
            pl["ctx"] = copy.deepcopy(r.choice([l[i] for l, i in query_slots(p)]))
        p["plans"].insert(r.randrange(len(p["plans"]) + 1), pl)
    elif k == "ctx":
        if not p["plans"]:
            return
        pl = r.choice(p["plans"])
        pl["ctx"] = copy.deepcopy(r.choice([l[i] for l, i in query_slots(p)] + [["true"], ["false"]]))
    elif k == "query":
        qs = query_slots(p)
        if not qs:
            return
        l, i = r.choice(qs)
        q = l[i]
        other = copy.deepcopy(r.choice(qs))
        o = other[0][other[1]]
        l[i] = r.choice([["not", q], ["and", q, o], ["or", q, o], ["or", o, q], ["and", o, q], o,
                         ["and", q[2], q[1]] if q[0] in ("and", "or") else ["not", ["not", q]],
                         ["or", q[1], q[2]] if q[0] == "and" else ["true"],
                         q[1] if q[0] in ("and", "or", "not") else ["false"]])
        if l[i] == q:
            return
        l[i] = copy.deepcopy(l[i])
    elif k == "annot":
        s = pick([s for s in slots if s[3] and s[0][s[1]][0] == "f" and not s[0][s[1]][1].startswith(".")])
        if not s:
            return
        x = s[0][s[1]]
        if x[3] and r.random() < 0.4:
            del x[3][r.randrange(len(x[3]))]
        else:
            vs = sorted(allvars(s[2], set())) if s[2] is not None else []
            n = [atom("p"), atom("q"), lit("s", [num(1)]), lit("s", [num(2)]), lit("source", [atom("a")])]
            if s[2] is not None:
                n += [lit("s", [list(W)]), lit("s", [var((vs or [0])[-1] + 1)]), lit("source", [var((vs or [0])[-1] + 1)])]
            if vs:
                n += [lit("s", [var(r.choice(vs))]), var(r.choice(vs))]
            x[3].insert(r.randrange(len(x[3]) + 1), r.choice(n))
    elif k == "fact":
        if not p["beliefs"]:
            return
        b = copy.deepcopy(r.choice(p["beliefs"]))
        if r.random() < 0.3:
            p["beliefs"].remove(b)
            return k
        if b[2]:
            b[2][r.randrange(len(b[2]))] = copy.deepcopy(r.choice(consts(p)))
        elif r.random() < 0.5:
            b[3].append(atom("p"))
        p["beliefs"].insert(r.randrange(len(p["beliefs"]) + 1), b)
    elif k == "kind":
        if not bs:
            return
        pl, b, d = r.choice(bs)
        i = r.randrange(len(b))
        x = b[i]
        groups = [("add", "del", "rep1", "abolish"), ("ach", "later", "test", "add")]
        g = [y for y in groups if x[0] in y]
        if not g or x[1][0] != "f":
            return
        x[0] = r.choice([z for z in g[0] if z != x[0]])
    elif k == "nest":
        s = pick(free)
        if not s:
            return
        x = s[0][s[1]]
        s[0][s[1]] = r.choice([lit("f", [x]), lst([x]), cons(x, lst([])), cons(x, list(W)), lit("g", [x, x])])
    elif k == "expr":
        s = pick([s for s in free if s[0][s[1]][0] in ("n", "v")])
        if not s:
            return
        x = s[0][s[1]]
        s[0][s[1]] = r.choice([bi("+", x, num(1)), bi("-", x, num(1)), bi("*", num(2), x), bi("-", num(0), x),
                               un("-", x) if x[0] == "v" else bi("mod", x, num(2)), bi("+", x, x)])
    return k


def constant(t):
    return t[0] in ("n", "s", "b", "f", "l", "c") and not allvars(t, set())


def ill(x):
    """Constant expressions without a value are rejected when the program is read (C14)."""
    if isinstance(x, dict):
        return any(ill(y) for y in x.values())
    if not isinstance(x, list):
        return False
    if len(x) == 4 and x[0] == "e" and isinstance(x[1], str) and x[1] not in ("==", "\\=="):
        if any(y[0] in ("s", "b", "l", "c", "f") for y in x[2:4]) and not allvars(x, set()):
            return True
    if len(x) == 3 and x[0] == "u" and x[2][0] != "n" and not allvars(x, set()):
        return True
    return any(ill(y) for y in x)


def cyclic(p):
    """May solving a query not end?  (rules calling each other in a circle)"""
    g = {}
    for ru in p["rules"]:
        out = g.setdefault((ru["head"][1], len(ru["head"][2])), set())

        def go(x):
            if isinstance(x, list):
                if len(x) == 4 and x[0] == "f" and isinstance(x[1], str):
                    out.add((x[1], len(x[2])))
                for y in x:
                    go(y)
        go(ru["q"])
    seen, stack = set(), set()

    def visit(n):
        if n in stack:
            return True
        if n in seen:
            return False
        seen.add(n)
        stack.add(n)
        bad = any(visit(m) for m in g.get(n, ()))
        stack.discard(n)
        return bad
    return any(visit(n) for n in list(g))


def make(text, seed, nmut=None):
    r = random.Random(seed)
    names, progs, dirs, hidden = read(text, r)
    every = progs + ([hidden] if hidden else [])
    dd = {}
    for d in dirs:
        dd.setdefault(d[0], []).append(d[1] if len(d) > 1 else "")
    if nmut is None:
        nmut = r.choice([0, 0, 1, 1, 2, 3])
    if "keep" in dd:
        nmut = 0
    done = []
    for _ in range(nmut):
        for _ in range(20):
            p = r.choice(every)
            k = mutate(p, r)
            if k:
                done.append(k)
                break
    if any(ill(p) for p in every):
        raise SyntaxError("constant expression without a value")
    tag = 0
    for p in every:
        tag = instrument(p, r, tag)
    order = [int(x) for x in dd["build"][0].split()] if "build" in dd else list(range(len(progs)))
    n = len(order)
    s = []
    for i in order:
        # instances one by one or at once
        if s and s[-1][1] == i and r.random() < 0.6:
            s[-1] = ["builds", i, names[i] + ".asl", s[-1][3] + 1 if s[-1][0] == "builds" else 2, None]
        else:
            s.append(["build", i, names[i] + ".asl"])
    timed = "timing" in dd

    def steps(m):
        for _ in range(m):
            s.append(["step", r.randrange(n), r.randrange(1, 12)])
            if timed and r.random() < 0.4:
                s.append(["tick", r.randrange(1, 5)])
    for c in dd.get("call", []):
        a, trig, term = c.split(None, 2)
        steps(r.randrange(0, 3))
        if r.random() < 0.3:
            s.append(["settle", int(a) % n])
        s.append(["call", int(a), trig, Parser(term).atomic()])
    steps(r.choice([0, 0, 1, 2, 4]) if n == 1 else r.randrange(0, 7))
    if n > 1 and r.random() < 0.75:
        for _ in range(2):
            for i in r.sample(range(n), n):
                s.append(["settle", i])
    s += [["run"], ["fin"]]
    case = {"progs": progs, "script": s, "opts": {}, "mut": done}
    if timed:
        race = r.choice([0, 0, 0, 1, 2])
        case["opts"] = {"t0": r.choice([0, 0, 5]), "race": race, "over": r.choice([0, 1, 1, 2] if race else [1, 1, 2])}
    if done:
        case["opts"].update({"maxsteps": 240, "trunc": 1})
        if any(cyclic(p) for p in progs):
            case["opts"]["rec"] = 1
    if hidden or "How" in text:
        case["hidden"] = hidden or prog()
        exchange.resolve(case, seed)
    mix = random.Random(len(str(s)) * 7 + len(str(progs)))
    case["texts"] = [rprog(p, None, mix if mix.random() < 0.25 else None) for p in case["progs"]]
    return case


def build(pid, seed):
    """A case for the property: mostly its own scenarios, sometimes another's."""
    from scenarios import S
    r = random.Random(seed * 13 + 5)
    own = S.get(pid, [])
    if own and r.random() < 0.8:
        text = own[seed % len(own)]
    else:
        text = r.choice([t for l in S.values() for t in l])
    for k in range(20):
        try:
            return make(text, seed * 31 + k)
        except (SyntaxError, RecursionError):
            if k == 19:
                raise
