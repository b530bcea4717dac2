"""Constructors and source rendering for the JSON terms of spec/Terms.tla."""

def num(p, q=1):
    return ["n", p, q]
def st(s):
    return ["s", s]
def boo(b):
    return ["b", bool(b)]
def var(i):
    return ["v", i]
W = ["w"]
def lit(f, args=(), ann=()):
    return ["f", f, list(args), list(ann)]
def atom(f):
    return lit(f)
def lst(elems):
    return ["l", list(elems)]
def cons(h, t):
    return ["c", h, t]
def un(op, t):
    return ["u", op, t]
def bi(op, l, r):
    return ["e", op, l, r]


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def rnum(p, q):
    if q == 1:
        return str(p) if p >= 0 else "(-%d)" % -p
    v = abs(p) / q
    t = repr(v)
    return t if p >= 0 else "(-%s)" % t


def rt(t, names=None):
    """Source text of a term."""
    k = t[0]
    if k == "n":
        return rnum(t[1], t[2])
    if k == "s":
        return esc(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "v":
        return names[t[1]] if names else "V%d" % t[1]
    if k == "w":
        return "_"
    if k == "f":
        s = t[1]
        if t[2]:
            s += "(" + ", ".join(rt(a, names) for a in t[2]) + ")"
        if t[3]:
            s += "[" + ", ".join(rt(a, names) for a in t[3]) + "]"
        return s
    if k == "l":
        return "[" + ", ".join(rt(a, names) for a in t[1]) + "]"
    if k == "c":
        return "[" + rt(t[1], names) + "|" + rt(t[2], names) + "]"
    if k == "u":
        return "(%s %s)" % (t[1], rt(t[2], names))
    if k == "e":
        return "(%s %s %s)" % (rt(t[2], names), t[1], rt(t[3], names))
    raise ValueError(t)


def rq(q, names=None):
    k = q[0]
    if k in ("true", "false"):
        return k
    if k == "term":
        return rt(q[1], names)
    if k == "eq":
        return "(%s = %s)" % (rt(q[1], names), rt(q[2], names))
    if k == "and":
        return "(%s & %s)" % (rq(q[1], names), rq(q[2], names))
    if k == "or":
        return "(%s | %s)" % (rq(q[1], names), rq(q[2], names))
    if k == "not":
        return "not (%s)" % rq(q[1], names)
    if k == "act":
        return rt(lit(q[1], q[2]), names)
    raise ValueError(q)


def rstmt(x, names=None):
    """Source text of a statement and whether it needs a ';' after it."""
    k = x[0]
    if k == "add":
        return "+" + rt(x[1], names)
    if k == "del":
        return "-" + rt(x[1], names)
    if k == "ach":
        return "!" + rt(x[1], names)
    if k == "later":
        return "!!" + rt(x[1], names)
    if k == "test":
        return "?" + rt(x[1], names)
    if k == "abolish":
        return ".abolish(%s)" % rt(x[1], names)
    if k == "q":
        return rq(x[1], names)
    if k == "if":
        s = "if (%s) { %s }" % (rq(x[1], names), rbody(x[2], names))
        if x[3]:
            s += " else { %s }" % rbody(x[3], names)
        return s
    if k in ("while", "for"):
        return "%s (%s) { %s }" % (k, rq(x[1], names), rbody(x[2], names))
    if k == "send":
        return ".send(%s, %s, %s)" % tuple(rt(y, names) for y in x[1:4])
    if k == "bcast":
        return ".broadcast(%s, %s)" % tuple(rt(y, names) for y in x[1:3])
    if k == "wait":
        args = []
        if x[1]:
            args.append(esc(x[1][0] + rt(x[1][1])))
        args += [rt(y, names) for y in x[2]]
        return ".wait(%s)" % ", ".join(args)
    if k == "rep1":
        return "-+" + rt(x[1], names)
    if k == "rep2":
        return None
    raise ValueError(x)


SEP = "; "      # between statements


def rbody(b, names=None):
    return SEP.join(s for s in (rstmt(x, names) for x in b) if s is not None)


def rplan(p, names=None):
    s = ""
    if p.get("label"):
        s += "@%s " % p["label"]
    s += p["trig"] + rt(p["head"], names)
    if p["ctx"] != ["true"]:
        s += " : " + rq(p["ctx"], names)
    if p["body"]:
        s += " <- " + rbody(p["body"], names)
    return s + "."


def rprog(p, names=None, r=None):
    """The text of a program; with r the kinds of declarations mixed, which has no meaning."""
    kinds = [[rt(b, names) + "." for b in p["beliefs"]],
             ["%s :- %s." % (rt(x["head"], names), rq(x["q"], names)) for x in p["rules"]],
             ["!" + rt(g, names) + "." for g in p["goals"]],
             [rplan(pl, names) for pl in p["plans"]]]
    if r is None:
        return "\n".join(x for k in kinds for x in k) + "\n"
    out = []
    while any(kinds):
        k = r.choice([k for k in kinds for _ in k])
        x = k.pop(0)
        if r.random() < 0.15:
            x = "{ begin %s }\n%s\n{ end }" % (r.choice(["d", "d(1)", "part(a)[b]"]), x)
        out.append(x)
    return "\n".join(out) + "\n"


# --- to the form the specification reads --------------------------------

def repl_pattern(t, base, seen):
    """The pattern a replacement removes: own variables, expressions open."""
    k = t[0]
    if k == "v":
        if t[1] not in seen:
            seen[t[1]] = base + len(seen) + 1
        return ["v", seen[t[1]]]
    if k in ("u", "e"):
        return ["w"]
    if k == "f":
        return ["f", t[1], [repl_pattern(a, base, seen) for a in t[2]],
                [repl_pattern(a, base, seen) for a in t[3]]]
    if k == "l":
        return ["l", [repl_pattern(a, base, seen) for a in t[1]]]
    if k == "c":
        return ["c", repl_pattern(t[1], base, seen), repl_pattern(t[2], base, seen)]
    return t


def expand_body(b, cell):
    out = []
    for x in b:
        if x[0] == "rep1":
            seen = {}
            pat = repl_pattern(x[1], cell[0], seen)
            cell[0] += len(seen)
            out.append(["del", pat])
            out.append(["add", x[1]])
        elif x[0] == "if":
            out.append(["if", x[1], expand_body(x[2], cell), expand_body(x[3], cell)])
        elif x[0] in ("while", "for"):
            out.append([x[0], x[1], expand_body(x[2], cell)])
        else:
            out.append(x)
    return out


def maxvar(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "v" and isinstance(x[1], int):
            return x[1]
        return max([maxvar(y) for y in x] or [0])
    if isinstance(x, dict):
        return max([maxvar(y) for y in x.values()] or [0])
    return 0


def prog(beliefs=(), rules=(), plans=(), goals=()):
    return {"beliefs": list(beliefs), "rules": list(rules), "plans": list(plans), "goals": list(goals)}


def rule(head, q):
    return {"head": head, "q": q}


def plan(trig, head, ctx=("true",), body=(), label=""):
    return {"trig": trig, "head": head, "ctx": list(ctx), "body": list(body), "label": label}


def spec_prog(p):
    rules = [{"head": r["head"], "q": r["q"], "nv": maxvar([r["head"], r["q"]])} for r in p["rules"]]
    plans = []
    for pl in p["plans"]:
        cell = [maxvar([pl["head"], pl["ctx"], pl["body"]])]
        body = expand_body(pl["body"], cell)
        plans.append({"trig": pl["trig"], "head": pl["head"], "ctx": pl["ctx"], "body": body,
                      "nv": cell[0], "label": pl.get("label", "").split("[")[0].split("(")[0]})
    return {"rules": rules, "plans": plans, "beliefs": p["beliefs"], "goals": p["goals"]}
