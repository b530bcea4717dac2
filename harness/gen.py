"""Random AgentSpeak programs, as terms of terms.py, for trace validation.

A Gen is driven by a dictionary of weights (profile).  Programs terminate: a plan at
level L only raises events of a level > L; loops are bounded; rules are not recursive
except over beliefs that are never changed.
"""
import random
from terms import *

ATOMS = ["x", "y", "z", "ann"]
STRS = ["s", "tt", ""]

# base beliefs: name -> argument types
BASE = {"b": ["num"], "c": ["atom", "num"], "d": ["any"], "k": [], "b2": ["num", "num"], "w": ["num"]}
FUN = {"b2": "b"}               # same functor, other arity
STATIC = {"ed": ["num", "num"]}
RULES = {"r": ["num"], "r2": ["atom", "num"], "path": ["num", "num"], "rn": ["num"]}
EVB = {"e1": ["num"], "e2": ["atom", "num"], "e3": []}    # beliefs with plans


def fun(p):
    return FUN.get(p, p)


class Env:
    """What is statically known about the variables of a plan."""
    def __init__(self, types=None, nxt=1):
        self.t = dict(types or {})
        self.nxt = nxt

    def copy(self):
        return Env(self.t, self.nxt)

    def fresh(self):
        i = self.nxt
        self.nxt += 1
        self.t[i] = "free"
        return i

    def of(self, ty):
        return [i for i, x in self.t.items() if x == ty]

    def join(self, a, b):
        self.nxt = max(a.nxt, b.nxt)
        for i in set(a.t) | set(b.t):
            x, y = a.t.get(i, "free"), b.t.get(i, "free")
            self.t[i] = x if x == y else "maybe"


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.tag = 0
        self.others = prof.get("agents", [])
        self.cost = {}

    def w(self, name, default=0):
        return self.p.get(name, default)

    def chance(self, x):
        return self.r.random() < x

    def pick(self, q):
        return self.r.choice(q)

    def weighted(self, items):
        tot = sum(x for x, _ in items)
        k = self.r.random() * tot
        for x, v in items:
            k -= x
            if k <= 0:
                return v
        return items[-1][1]

    # ---- terms -----------------------------------------------------------
    def val(self, ty, d=0):
        r = self.r
        if ty == "num":
            return num(r.choice([0, 1, 1, 2, 2, 3, 4])) if not self.chance(0.08) else \
                self.pick([num(1, 2), num(-1), num(5, 2)])
        if ty == "atom":
            return atom(self.pick(ATOMS[:3]))
        if ty == "str":
            return st(self.pick(STRS))
        if ty == "list":
            return lst([self.val(self.pick(["num", "atom"]), d + 1) for _ in range(r.randrange(4))])
        if ty == "numlist":
            return lst([self.val("num") for _ in range(r.randrange(1, 5))])
        k = r.random()
        if k < 0.3 or d > 1:
            return self.val(self.pick(["num", "atom"]), d)
        if k < 0.45:
            return self.val("str")
        if k < 0.65:
            return self.val("list", d + 1)
        return lit(self.pick(["f", "g"]), [self.val("any", d + 1) for _ in range(r.randrange(1, 3))])

    def numexpr(self, env, d=0):
        vs = env.of("num")
        k = self.r.random()
        if d >= 2 or k < 0.35 or not vs:
            if vs and self.chance(0.7):
                return var(self.pick(vs))
            return self.val("num")
        op = self.weighted([(4, "+"), (3, "-"), (2, "*"), (1, "mod"), (1, "div"), (0.6, "/")])
        l = self.numexpr(env, d + 1)
        if op in ("mod", "div", "/"):
            return bi(op, l, num(self.pick([2, 2, 4])))
        if self.chance(0.1):
            return un("-", l)
        return bi(op, l, self.numexpr(env, d + 1))

    def ground(self, env, ty, d=0):
        """An expression whose value is (very likely) ground and of the type."""
        vs = env.of(ty) + (env.of("num") + env.of("atom") if ty == "any" else [])
        if vs and self.chance(0.45):
            return var(self.pick(vs))
        if ty == "num" and self.chance(0.3):
            return self.numexpr(env)
        if ty == "any" and d < 2 and vs and self.chance(0.4):
            return self.pick([lambda: lit("f", [self.ground(env, "any", d + 1)]),
                              lambda: lst([self.ground(env, "any", d + 1), self.val("num")]),
                              lambda: cons(self.ground(env, "any", d + 1), self.val("list"))])()
        return self.val(ty, d)

    def anyvar(self, env, free=0.5):
        """A variable: new, unbound or bound."""
        fr = env.of("free") + env.of("maybe")
        k = self.r.random()
        if k < free or not env.t:
            if fr and self.chance(0.5):
                return self.pick(fr)
            return env.fresh() if env.nxt < 9 else self.pick(list(env.t))
        return self.pick(list(env.t))

    def pattern(self, env, ty, new):
        """Argument of a query: binds variables into new."""
        k = self.r.random()
        if k < 0.22:
            return self.ground(env, ty) if self.chance(0.6) else self.val(ty)
        if k < 0.30:
            return W
        if k < 0.36 and ty == "any":
            v = self.anyvar(env)
            new[v] = "any"
            return self.pick([lit("f", [var(v)]), cons(var(v), W), cons(W, var(v)), lst([var(v), W]),
                              lit("g", [var(v), var(v)])])
        v = self.anyvar(env, 0.75)
        new.setdefault(v, ty)
        return var(v)

    def annots(self, env, new, n=None):
        out = []
        for _ in range(self.r.randrange(1, 3) if n is None else n):
            k = self.r.random()
            if k < 0.35:
                out.append(atom(self.pick(["p", "q"])))
            elif k < 0.7:
                v = self.anyvar(env, 0.8)
                new.setdefault(v, "any")
                out.append(lit("s", [var(v)]))
            else:
                out.append(lit("s", [self.val(self.pick(["num", "atom"]))]))
        return out

    def gannots(self):
        pool = [atom("p"), atom("q"), lit("s", [num(1)]), lit("s", [num(2)]), lit("s", [atom("x")])]
        return self.r.sample(pool, self.r.randrange(1, 4))

    # ---- queries ---------------------------------------------------------
    def preds(self):
        out = list(BASE) + self.w("evb_preds", [])
        return out

    def sig(self, p):
        for t in (BASE, STATIC, RULES, EVB):
            if p in t:
                return t[p]

    def qterm(self, env, pool=None):
        """A match query; returns the query, env is updated with its answers."""
        p = self.pick(pool or (self.preds() + (list(RULES) if self.w("rules") else [])
                               + (["ed"] if self.w("rules") else [])))
        new = {}
        args = [self.pattern(env, ty, new) for ty in self.sig(p)]
        ann = []
        if self.w("annots") and p in BASE and self.chance(self.w("annots")):
            ann = self.annots(env, new)
        for v, ty in new.items():
            if env.t.get(v, "free") in ("free", "maybe"):
                env.t[v] = ty
        return ["term", lit(fun(p), args, ann)]

    def numgen(self, env):
        """A query that certainly binds a number variable to a few values."""
        v = env.fresh() if env.nxt < 9 else self.anyvar(env)
        k = self.r.random()
        if k < 0.35:
            q = ["term", lit("b", [var(v)])]
        elif k < 0.6:
            q = ["act", ".member", [var(v), lst([self.ground(env, "num") for _ in range(self.r.randrange(1, 4))])]]
        elif k < 0.8:
            q = ["act", ".range", [num(self.r.randrange(1, 4)), var(v)]]
        else:
            q = ["term", lit("c", [W, var(v)])]
        if env.t.get(v, "free") in ("free", "maybe"):
            env.t[v] = "num"
        return q

    def compare(self, env):
        op = self.pick(["<", "<=", ">", ">=", "==", "\\=="])
        if op in ("==", "\\==") and self.chance(0.5):
            ty = self.pick(["atom", "any"])
            return ["term", bi(op, self.ground(env, ty), self.ground(env, ty))]
        l, r = self.numexpr(env), self.numexpr(env)
        if l[0] == "n" and r[0] == "n":
            vs = env.of("num")
            if vs:
                l = var(self.pick(vs))
        return ["term", bi(op, l, r)]

    def eq(self, env):
        v = self.anyvar(env, 0.7)
        if env.t[v] in ("free", "maybe"):
            others = [x for x in env.t if x != v]
            k = self.r.random()
            if k < 0.15 and others:
                o = self.pick(others)
                q = ["eq", var(v), var(o)]
                env.t[v] = env.t[o] if env.t[o] != "free" else "free"
                if env.t[v] == "maybe" or env.t[o] == "maybe":
                    env.t[v] = env.t[o] = "maybe"
                elif env.t[o] == "free":
                    env.t[v] = env.t[o] = "maybe"
                return q
            if k < 0.3:
                o = env.fresh() if env.nxt < 9 else v
                if o != v:
                    env.t[v] = "maybe"
                    return ["eq", var(v), self.pick([lit("f", [var(o)]), lst([var(o), num(1)]), cons(num(1), var(o))])]
            ty = self.pick(["num", "num", "atom", "any"])
            t = self.ground(env, ty) if self.chance(0.7) else (self.numexpr(env) if ty == "num" else self.val(ty))
            if not occurs(t, v):
                env.t[v] = ty
                return ["eq", var(v), t] if self.chance(0.6) else ["eq", t, var(v)]
        t = self.ground(env, env.t[v] if env.t[v] in ("num", "atom", "any") else "any")
        if occurs(t, v):
            t = self.val("any")
        return ["eq", var(v), t]

    def builtin(self, env):
        """Queries through built-in actions that succeed (mostly)."""
        v = env.fresh() if env.nxt < 9 else self.anyvar(env)
        k = self.pick(["findall", "findall", "count", "sum", "length", "member", "nth", "max", "sort", "concat", "range", "tests", "substring"])
        fr = env.t.get(v) in ("free", "maybe")

        def done(ty):
            if fr:
                env.t[v] = ty
        if k == "findall":
            e = env.copy()
            q = self.qterm(e)
            t = self.pick([x for x in [var(i) for i in e.t if i != v]] or [num(1)])
            if self.chance(0.3):
                t = lit("f", [t])
            done("list")
            return ["act", ".findall", [t, q[1], var(v)]]
        if k == "count":
            e = env.copy()
            q = self.qterm(e)
            done("num")
            return ["act", ".count", [q[1], var(v)]]
        if k == "sum":
            e = env.copy()
            x = e.fresh()
            done("num")
            env.nxt = max(env.nxt, e.nxt)
            return ["act", ".sum", [var(x), self.pick([lit("b", [var(x)]), lit("c", [W, var(x)]), lit("b", [W, var(x)])]), var(v)]]
        if k == "length":
            a = self.pick([self.val("list"), self.val("str"), lit("f", [num(1), num(2)])] + [var(i) for i in env.of("list")])
            done("num")
            return ["act", ".length", [a, var(v)]]
        if k == "member":
            l = self.pick([var(i) for i in env.of("list")] or [self.val("list")])
            done("any")
            return ["act", ".member", [var(v), l]]
        if k == "nth":
            l = lst([self.ground(env, "num") for _ in range(3)])
            done("num")
            return ["act", ".nth", [num(self.r.randrange(3)), l, var(v)]]
        if k == "max":
            l = lst([self.ground(env, "num") for _ in range(self.r.randrange(1, 4))])
            done("num")
            return ["act", self.pick([".max", ".min"]), [l, var(v)]]
        if k == "sort":
            l = lst([self.ground(env, "num") for _ in range(self.r.randrange(0, 5))])
            done("list")
            return ["act", ".sort", [l, var(v)]]
        if k == "concat":
            if self.chance(0.6):
                l = [self.val("list") for _ in range(2)]
                done("list")
            else:
                l = [self.val("str"), self.val(self.pick(["atom", "str"]))]
                done("str")
            return ["act", ".concat", l + [var(v)]]
        if k == "range":
            done("num")
            return ["act", ".range", [num(self.r.randrange(1, 4)), var(v)]]
        if k == "substring":
            done("num")
            return ["act", ".substring", [st(self.pick(["a", "ab", "b"])), st(self.pick(["aab", "abab", "b"])), var(v)]]
        x = self.pick([var(i) for i in env.t] or [num(1)])
        return ["act", self.pick([".atom", ".list", ".number", ".string", ".structure", ".literal", ".ground"]), [x]]

    def query(self, env, d=0, gen=False):
        """A query; env is changed to what holds for its answers."""
        k = self.weighted([
            (self.w("q_term", 5), "term"), (self.w("q_num", 2), "num"), (self.w("q_cmp", 1.5), "cmp"),
            (self.w("q_eq", 1.5), "eq"), (self.w("q_bool", 0.3), "bool"), (self.w("q_act", 1), "act"),
            (0 if d >= 2 else self.w("q_and", 3), "and"), (0 if d >= 2 else self.w("q_or", 1.5), "or"),
            (0 if d >= 2 else self.w("q_not", 1.5), "not"), (self.w("q_recact", 0), "rec")])
        if k == "term":
            return self.qterm(env)
        if k == "num":
            return self.numgen(env)
        if k == "cmp":
            return self.compare(env) if env.of("num") or self.chance(0.2) else self.numgen(env)
        if k == "eq":
            return self.eq(env)
        if k == "bool":
            return ["true"] if self.chance(0.6) else ["false"]
        if k == "act":
            return self.builtin(env)
        if k == "rec":
            return self.rec(env)[1]
        if k == "and":
            l = self.query(env, d + 1)
            return ["and", l, self.query(env, d + 1)]
        if k == "or":
            a, b = env.copy(), env.copy()
            l = self.query(a, d + 1)
            b.nxt = max(b.nxt, a.nxt) if self.chance(0.3) else b.nxt
            r = self.query(b, d + 1)
            env.join(a, b)
            return ["or", l, r]
        e = env.copy()
        q = self.query(e, d + 1)
        # variables of the negated query stay unbound
        for i in e.t:
            if i not in env.t and self.chance(0.5):
                env.t[i] = "free"
        env.nxt = max(env.nxt, e.nxt)
        return ["not", q]

    # ---- statements ------------------------------------------------------
    def rec(self, env):
        self.tag += 1
        vs = [var(i) for i in sorted(env.t)]
        if self.chance(0.15) and vs:
            vs = vs + [lit("f", [self.pick(vs)])]
        return ["q", ["act", ".rec", [num(self.tag)] + vs[:8]]]

    def gbelief(self, env, pool=None, ann=True):
        p = self.pick(pool or self.preds())
        a = self.gannots() if ann and self.w("annots") and p in BASE and self.chance(self.w("annots")) else []
        return lit(fun(p), [self.ground(env, ty) for ty in self.sig(p)], a)

    def callargs(self, env, sig):
        args, outs = [], {}
        for mode, ty in sig:
            if mode == "in":
                args.append(self.ground(env, ty))
            else:
                k = self.r.random()
                if k < 0.7:
                    v = env.fresh() if env.nxt < 9 else self.anyvar(env)
                    args.append(var(v))
                    outs[v] = ty
                elif k < 0.8:
                    v = env.fresh() if env.nxt < 9 else self.anyvar(env)
                    args.append(lit("f", [var(v)]))
                    outs[v] = "maybe"
                else:
                    v = self.anyvar(env, 0.3)
                    args.append(var(v))
                    outs[v] = ty
        for v, ty in outs.items():
            if env.t.get(v, "free") in ("free", "maybe"):
                env.t[v] = "maybe" if self.w("outmaybe", 0.3) > self.r.random() else ty
        return args

    def stmt(self, env, level, d):
        """Appends one statement (a list of them)."""
        goals = [g for g in self.goals if g["level"] > level]
        evs = [e for e in self.evs if e["level"] > level]
        deep = d < self.w("depth", 2)
        k = self.weighted([
            (self.w("rec", 3), "rec"), (self.w("add", 1), "add"), (self.w("del", 1), "del"),
            (self.w("rep", 0.7), "rep"), (self.w("abolish", 0.3), "abolish"),
            (self.w("ev", 1) if evs else 0, "ev"), (self.w("evdel", 0.5) if evs else 0, "evdel"),
            (self.w("ach", 2) if goals else 0, "ach"), (self.w("later", 0.5) if goals else 0, "later"),
            (self.w("test", 0.5), "test"), (self.w("q", 1.5), "q"), (self.w("bi", 0.5), "bi"),
            (self.w("if", 1) if deep else 0, "if"), (self.w("while", 0.5) if deep else 0, "while"),
            (self.w("for", 1) if deep else 0, "for"), (self.w("send", 0), "send"),
            (self.w("wait", 0), "wait"), (self.w("fail", 0.05), "fail")])
        if k == "rec":
            return [self.rec(env)]
        if k == "add":
            return [["add", self.gbelief(env)]]
        if k == "del":
            p = self.pick(self.preds())
            if self.chance(0.4):
                return [["del", self.gbelief(env, [p])]]
            new = {}
            t = lit(fun(p), [self.pattern(env, ty, new) for ty in self.sig(p)])
            if self.w("annots") and p in BASE and self.chance(self.w("annots")):
                t = lit(t[1], t[2], self.annots(env, new))
            for v, ty in new.items():
                if env.t.get(v, "free") == "free":
                    env.t[v] = "maybe"
            return [["del", t]]
        if k == "rep":
            p = self.pick([x for x in self.preds() if self.sig(x)])
            e = env.copy()
            args = []
            for ty in self.sig(p):
                vs = env.of(ty)
                if ty == "num" and vs and self.chance(0.6):
                    args.append(bi(self.pick(["+", "-"]), var(self.pick(vs)), num(1)))
                elif vs and self.chance(0.6):
                    args.append(var(self.pick(vs)))
                else:
                    args.append(self.val(ty))
            return [["rep1", lit(fun(p), args, self.gannots() if self.w("annots") and p in BASE and self.chance(self.w("annots") / 2) else [])]]
        if k == "abolish":
            p = self.pick(self.preds())
            new = {}
            e = env.copy()
            t = lit(fun(p), [self.pattern(e, ty, new) for ty in self.sig(p)])
            if self.w("annots") and p in BASE and self.chance(self.w("annots") / 2):
                t = lit(t[1], t[2], [self.pick([atom("p"), lit("s", [num(1)])])])
            env.nxt = e.nxt
            return [["abolish", t]]
        if k in ("ev", "evdel"):
            e = self.pick(evs)
            if k == "ev":
                return [["add", lit(e["name"], [self.ground(env, ty) for ty in e["sig"]])]]
            new = {}
            t = lit(e["name"], [self.ground(env, ty) if self.chance(0.4) else self.pattern(env, ty, new) for ty in e["sig"]])
            for v, ty in new.items():
                if env.t.get(v, "free") == "free":
                    env.t[v] = "maybe"
            return [["del", t]]
        if k in ("ach", "later"):
            g = self.pick(goals)
            e = env if k == "ach" else env.copy()
            args = self.callargs(e, g["sig"])
            env.nxt = max(env.nxt, e.nxt)
            for i in e.t:
                env.t.setdefault(i, "free")
            return [[k, lit(g["name"], args)]]
        if k == "test":
            if self.w("tests") and goals and self.chance(0.5):
                tg = [t for t in self.tgoals if t["level"] > level]
                if tg:
                    g = self.pick(tg)
                    return [["test", lit(g["name"], self.callargs(env, g["sig"]))]]
            e = env.copy()
            q = self.qterm(e)
            if self.chance(0.85):
                # make success likely
                return [["if", q, [["test", q[1]]] + ([self.rec(e)] if self.chance(0.7) else []), []]] if deep else [self.rec(env)]
            env.t, env.nxt = e.t, e.nxt
            return [["test", q[1]]]
        if k == "q":
            if self.chance(self.w("qfail", 0.1)):
                return [["q", self.query(env, 1)]]
            if self.chance(0.6):
                was = dict(env.t)
                q = self.eq(env)
                return [["q", self.soft(q, was, env)]]
            return [["q", ["or", self.query(env.copy(), 1), ["true"]]]]
        if k == "bi":
            was = dict(env.t)
            q = self.builtin(env)
            return [["q", self.soft(q, was, env)]]
        if k == "if":
            a, b = env.copy(), env.copy()
            q = self.query(a)
            b.nxt = max(a.nxt, b.nxt)
            x = self.body(a, level, d + 1, self.r.randrange(0, 4))
            y = self.body(b, level, d + 1, self.r.randrange(0, 3)) if self.chance(0.6) else []
            env.join(a, b)
            return [["if", q, x, y]]
        if k == "for":
            a = env.copy()
            q = self.numgen(a) if self.chance(0.4) else self.query(a, 1)
            x = self.body(a, level, d + 1, self.r.randrange(0, 4))
            env.nxt = max(env.nxt, a.nxt)
            for i in a.t:
                env.t.setdefault(i, "free")
            return [["for", q, x]]
        if k == "while":
            a = env.copy()
            cnt = "cnt%d" % self.r.randrange(3) if d else "cnt"
            if cnt in self.loops:
                return [self.rec(env)]
            self.loops = self.loops | {cnt}
            v = a.fresh()
            a.t[v] = "num"
            n = self.r.randrange(1, 4)
            cond = ["and", ["term", lit(cnt, [var(v)])], ["term", bi("<", var(v), num(n))]]
            if self.chance(0.3):
                cond = ["and", cond, self.query(a, 2)]
            x = self.body(a, level, d + 1, self.r.randrange(0, 3))
            upd = ["rep1", lit(cnt, [bi("+", var(v), num(1))])]
            pos = self.r.randrange(len(x) + 1)
            x = x[:pos] + [upd] + x[pos:]
            env.nxt = max(env.nxt, a.nxt)
            for i in a.t:
                env.t.setdefault(i, "free")
            self.loops = self.loops - {cnt}
            return [["abolish", lit(cnt, [W])], ["add", lit(cnt, [num(0)])], ["while", cond, x]]
        if k == "send":
            return self.send(env, goals, evs)
        if k == "wait":
            return [self.wait(env)]
        return [self.failing(env)]

    def soft(self, q, was, env):
        """A query that may well fail is made optional, most of the time."""
        v = q[1] if q[0] == "eq" else q[2][-1]
        o = q[2] if q[0] == "eq" else None
        fresh = any(x and x[0] == "v" and was.get(x[1], "free") == "free" for x in (v, o))
        if q[0] == "act" and q[1] in (".member", ".substring", ".atom", ".list", ".number", ".string",
                                      ".structure", ".literal", ".ground"):
            fresh = False
        if fresh or self.chance(self.w("hard", 0.15)):
            return q
        return ["or", q, ["true"]]

    def failing(self, env):
        v = env.fresh() if env.nxt < 9 else self.anyvar(env)
        return self.pick([
            ["q", ["false"]], ["q", ["act", ".fail", []]], ["q", ["not", ["true"]]],
            ["q", ["eq", num(1), num(2)]],
            ["add", lit("b", [var(v)])], ["ach", lit("nogoal", [num(1)])], ["test", lit("nobel", [num(1)])],
            ["q", ["term", bi("<", var(v), num(1))]], ["q", ["and", ["eq", var(v), atom("x")], ["eq", num(1), bi("+", var(v), num(1))]]],
            ["q", ["and", ["eq", var(v), num(0)], ["eq", num(1), bi(self.pick(["/", "mod", "div"]), num(1), var(v))]]],
            ["q", ["term", var(v)]], ["add", var(v)],
            ["q", ["act", ".nth", [num(7), lst([num(1)]), var(v)]]],
            ["q", ["act", ".max", [lst([]), var(v)]]],
            ["q", ["act", ".max", [lst([num(1), atom("x")]), var(v)]]],
            ["send", atom("nobody"), atom("tell"), lit("k")], ["send", atom("a"), atom("shout"), lit("k")],
            ["test", lit("b", [bi("+", var(v), num(1))])], ["ach", var(v)],
        ])

    def send(self, env, goals, evs):
        rs = self.others
        me = self.me
        k = self.weighted([(3, "tell"), (1.2, "untell"), (2.5 if goals else 0, "achieve"),
                           (self.w("unach", 0.3) if goals else 0, "unachieve")])
        if k == "tell":
            if evs and self.chance(0.35):
                e = self.pick(evs)
                c = lit(e["name"], [self.ground(env, ty) for ty in e["sig"]])
            else:
                c = self.gbelief(env)
        elif k == "untell":
            c = self.gbelief(env) if self.chance(0.6) else lit(*(lambda p: (fun(p), [W if self.chance(0.5) else self.ground(env, t) for t in self.sig(p)]))(self.pick(self.preds())))
        else:
            g = self.pick(goals)
            e = env.copy()
            args = self.callargs(e, g["sig"])
            env.nxt = max(env.nxt, e.nxt)
            for i in e.t:
                env.t.setdefault(i, "free")
            c = lit(g["name"], args)
        # sources of what was received earlier are not passed on
        if self.chance(0.2) and k != "unachieve":
            return [["bcast", atom(k), c]]
        if self.chance(0.3):
            n = self.r.randrange(1, len(rs) + 1)
            rcv = lst([atom(x) for x in self.r.sample(rs, n)])
        else:
            x = self.pick(rs)
            rcv = atom(x) if self.chance(0.85) else st(x)
        if self.chance(0.15):
            v = env.fresh() if env.nxt < 9 else None
            if v:
                env.t[v] = "maybe"
                return [["q", ["eq", var(v), c]], ["send", rcv, atom(k), var(v)]]
        return [["send", rcv, atom(k), c]]

    def wait(self, env):
        k = self.r.random()
        ev = []
        if k < 0.6:
            ms = [num(125 * self.pick([0, 1, 1, 2, 3, 4, 8]))]
        else:
            ms = [num(125 * self.r.randrange(1, 9))] if self.chance(self.w("waitboth", 0.7)) else []
            c = []
            for p, s in list(EVB.items()) + [("b", ["num"])]:
                c.append(["+", lit(p, [W if self.chance(0.4) else self.val(t) for t in s])])
                c.append(["-", lit(p, [W if self.chance(0.4) else self.val(t) for t in s])])
            for g in self.goals:
                c.append(["+!", lit(g["name"], [W if self.chance(0.6) or m == "out" else self.val(t) for m, t in g["sig"]])])
            ev = self.pick(c)
            if self.chance(0.15):
                ev = [ev[0], ["f", ev[1][1], [(["v", 1] if a == W else a) for a in ev[1][2]], []]]
        return ["wait", ev, ms]

    def body(self, env, level, d, n):
        out = []
        for _ in range(n):
            out += self.stmt(env, level, d)
            if self.chance(self.w("recafter", 0.35)):
                out.append(self.rec(env))
        return out

    # ---- programs --------------------------------------------------------
    def facts(self):
        out = []
        for p in BASE:
            n = self.r.randrange(0, self.w("facts", 3) + 1)
            seen = []
            for _ in range(n):
                t = lit(fun(p), [self.val(ty) for ty in BASE[p]],
                        self.gannots() if self.w("annots") and self.chance(self.w("annots")) else [])
                out.append(t)
        if self.w("rules"):
            out += [lit("ed", [num(1), num(2)]), lit("ed", [num(2), num(3)])]
            if self.chance(0.5):
                out.append(lit("ed", [num(1), num(3)]))
        self.r.shuffle(out)
        # at most 3 facts per group
        cnt, res = {}, []
        for t in out:
            key = (t[1], len(t[2]))
            cnt[key] = cnt.get(key, 0) + 1
            if cnt[key] <= self.w("facts", 3):
                res.append(t)
        return res

    def mkrules(self):
        X, Y, Z = var(1), var(2), var(3)
        if not self.w("rules"):
            return []
        out = [rule(lit("path", [X, Y]), ["term", lit("ed", [X, Y])]),
               rule(lit("path", [X, Y]), ["and", ["term", lit("ed", [X, Z])], ["term", lit("path", [Z, Y])]])]
        for _ in range(self.r.randrange(1, 4)):
            k = self.r.randrange(9)
            out.append([
                lambda: rule(lit("r", [X]), ["term", lit("b", [X])]),
                lambda: rule(lit("r", [X]), ["and", ["term", lit("c", [Y, X])], ["not", ["term", lit("b", [X])]]]),
                lambda: rule(lit("r", [X]), ["or", ["term", lit("b", [X])], ["term", lit("w", [X])]]),
                lambda: rule(lit("r", [self.val("num")]), ["true"]),
                lambda: rule(lit("r2", [X, Y]), ["and", ["term", lit("c", [X, Y])], ["term", lit("b", [Y])]]),
                lambda: rule(lit("r2", [X, Y]), ["and", ["term", lit("c", [X, Z])], ["eq", Y, bi("+", Z, num(1))]]),
                lambda: rule(lit("r2", [atom("x"), X]), ["or", ["term", lit("b", [X])], ["eq", X, num(7)]]),
                lambda: rule(lit("rn", [X]), ["and", ["term", lit("b", [Y])], ["and", ["term", lit("r", [X])], ["term", bi("<", X, Y)]]]),
                lambda: rule(lit("b", [X]), ["term", lit("w", [X])]),
            ][k]())
        self.r.shuffle(out)
        return out

    def context(self, env):
        if self.chance(self.w("noctx", 0.5)):
            return ["true"]
        return self.query(env, 1 if self.chance(0.6) else 0)

    def headpat(self, env, sig, goal=True):
        args = []
        for s in sig:
            mode, ty = s if goal else ("in", s)
            k = self.r.random()
            if mode == "out":
                v = env.fresh()
                args.append(var(v))
                env.t[v] = "maybe"
                self.outs.append((v, ty))
            elif k < self.w("headconst", 0.25):
                args.append(self.val(ty))
            elif k < self.w("headconst", 0.25) + 0.06:
                args.append(W)
            elif env.of(ty) and self.chance(0.1):
                args.append(var(self.pick(env.of(ty))))
            else:
                v = env.fresh()
                env.t[v] = ty
                args.append(var(v))
        return args

    def mkplan(self, trig, name, sig, level, goal, catchall=False):
        env = Env()
        self.outs = []
        self.loops = frozenset()
        if catchall:
            args = []
            for s in sig:
                v = env.fresh()
                mode, ty = s if goal else ("in", s)
                env.t[v] = ty if mode == "in" else "maybe"
                if mode == "out":
                    self.outs.append((v, ty))
                args.append(var(v))
            head, ctx = lit(name, args), ["true"]
        else:
            args = self.headpat(env, sig, goal)
            ann = []
            if self.w("headann") and self.chance(self.w("headann")):
                v = env.fresh()
                env.t[v] = "any"
                ann = [self.pick([lit("source", [var(v)]), lit("s", [var(v)]), atom("p")])]
                if ann[0][2] == []:
                    env.t[v] = "free"
            head = lit(name, args, ann)
            ctx = self.context(env)
        outs = self.outs
        b = [] if self.chance(0.3) else [self.rec(env)]
        b += self.body(env, level, 0, self.r.randrange(0, self.w("len", 4) + 1))
        for v, ty in outs:
            if self.chance(0.8):
                t = self.ground(env, ty)
                if not occurs(t, v):
                    q = ["eq", var(v), t]
                    q = q if self.chance(self.w("hardout", 0.4)) else ["or", q, ["true"]]
                    b.insert(self.r.randrange(max(0, len(b) - 1), len(b) + 1), ["q", q])
        if self.chance(0.5):
            b.append(self.rec(env))
        return plan(trig, head, ctx, b)

    def program(self, me="a", goals=None, evs=None, tgoals=None):
        self.me = me
        r = self.r
        if goals is None:
            goals = mkgoals(r, self.w("ngoals", 3))
        self.goals = goals
        self.tgoals = tgoals if tgoals is not None else [dict(name="t1", level=8, sig=[("in", "num"), ("out", "num")])]
        self.evs = evs if evs is not None else [dict(name=n, level=3 + 2 * i, sig=s) for i, (n, s) in enumerate(EVB.items())]
        plans = []
        env = Env()
        self.outs = []
        self.loops = frozenset()
        b = [self.rec(env)] if self.chance(0.5) else []
        b += self.body(env, 0, 0, r.randrange(2, self.w("mainlen", 6) + 1))
        b.append(self.rec(env))
        plans.append(plan("+!", atom("main"), ["true"], b))
        if self.w("mains", 1) > 1:
            for i in range(1, r.randrange(1, self.w("mains")) + 1):
                env = Env()
                b = [self.rec(env)] + self.body(env, 0, 0, r.randrange(1, self.w("mainlen", 6) + 1)) + [self.rec(env)]
                plans.append(plan("+!", atom("main%d" % i), ["true"], b))
        for g in self.goals:
            for _ in range(r.randrange(0, self.w("alts", 3))):
                plans.append(self.mkplan("+!", g["name"], g["sig"], g["level"], True))
            if self.chance(self.w("catchall", 0.9)):
                plans.append(self.mkplan("+!", g["name"], g["sig"], g["level"], True, True))
        for e in self.evs:
            for trig in ("+", "-"):
                for _ in range(r.randrange(0, self.w("evalts", 2) + 1)):
                    plans.append(self.mkplan(trig, e["name"], e["sig"], e["level"], False, self.chance(0.3)))
        if self.w("bev"):
            # plans on ordinary beliefs: they only record
            for p in BASE:
                for trig in ("+", "-"):
                    if self.chance(self.w("bev")):
                        env = Env()
                        self.outs = []
                        args = self.headpat(env, BASE[p], False)
                        plans.append(plan(trig, lit(fun(p), args), ["true"], [self.rec(env)]))
        if self.w("tests"):
            for t in self.tgoals:
                for _ in range(r.randrange(0, 3)):
                    plans.append(self.mkplan("+?", t["name"], t["sig"], t["level"], True))
        if self.chance(self.w("shuffle", 0.3)):
            r.shuffle(plans)
        goals0 = [p["head"] for p in plans if p["head"][1].startswith("main")]
        goals0.sort(key=lambda t: t[1])
        extra = []
        for e in self.evs:
            if self.chance(self.w("initev", 0.2)):
                extra.append(lit(e["name"], [self.val(t) for t in e["sig"]]))
        for i, pl in enumerate(plans):
            if self.chance(0.1):
                pl["label"] = "l%d" % i
        if self.chance(self.w("initgoal", 0.2)):
            g = self.pick(self.goals)
            goals0.append(lit(g["name"], [self.val(t) if m == "in" else self.pick([var(1), self.val(t)]) for m, t in g["sig"]]))
        return prog(self.facts() + extra, self.mkrules(), plans, goals0)


def mkgoals(r, n):
    out = []
    for i in range(n):
        sig = []
        for _ in range(r.choice([0, 1, 1, 2, 2])):
            sig.append((r.choice(["in", "in", "out"]), r.choice(["num", "num", "atom", "any"])))
        out.append(dict(name="g%d" % i if r.random() < 0.9 or i == 0 else "g%d" % (i - 1), level=2 + 2 * i, sig=sig))
    # goals of one name and arity must agree
    seen, res = {}, []
    for g in out:
        k = (g["name"], len(g["sig"]))
        if k in seen:
            g["name"] = g["name"] + "b"
        seen[(g["name"], len(g["sig"]))] = 1
        res.append(g)
    return res


def occurs(t, v):
    if isinstance(t, list):
        if len(t) == 2 and t[0] == "v":
            return t[1] == v
        return any(occurs(x, v) for x in t)
    return False


# ---- a static bound on the work of a program -------------------------------
def costs(p, limit=1e9):
    memo = {}
    byev = {}
    for pl in p["plans"]:
        byev.setdefault((pl["trig"], pl["head"][1], len(pl["head"][2])), []).append(pl)

    def ev(key, path):
        if key not in byev:
            return 1
        if key in path or len(path) > 12:
            return 1e6
        if key not in memo:
            memo[key] = 1 + max(body(pl["body"], path + [key]) for pl in byev[key])
        return memo[key]

    def body(b, path):
        c = 1
        for x in b:
            c += stmt(x, path)
            if c > 1e6:
                return 1e6
        return c

    def key(t, trig):
        return (trig, t[1], len(t[2])) if t[0] == "f" else None

    def stmt(x, path):
        k = x[0]
        if k in ("add", "rep1"):
            return 1 + ev(key(x[1], "+"), path) + (ev(key(x[1], "-"), path) if k == "rep1" else 0)
        if k == "del":
            return 1 + ev(key(x[1], "-"), path)
        if k in ("ach", "later"):
            return 1 + ev(key(x[1], "+!"), path)
        if k == "test":
            return 1 + ev(key(x[1], "+?"), path)
        if k == "if":
            return 1 + max(body(x[2], path), body(x[3], path))
        if k in ("for", "while"):
            return 2 + 4 * body(x[2], path)
        if k == "send":
            n = len(x[1][1]) if x[1][0] == "l" else 1
            c = x[3]
            return 2 + (n * (ev(key(c, "+"), path) + ev(key(c, "-"), path) + ev(key(c, "+!"), path)) if c[0] == "f" else 1e3)
        if k == "bcast":
            return 2 + 3 * (ev(key(x[2], "+"), path) + ev(key(x[2], "-"), path) + ev(key(x[2], "+!"), path))
        return 1
    tot = 0
    for g in p["goals"]:
        tot += ev(key(g, "+!"), [])
    for b in p["beliefs"]:
        tot += ev(key(b, "+"), [])
    return tot
