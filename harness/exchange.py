"""Plans sent as text between agents.

A string "§k" in a program stands for the text of plan k of the hidden program
case["hidden"]; resolve() replaces it and notes what every text means.
"""
import copy, random
import terms
from terms import *

# neither plans nor events
NOPLAN = ["", "no plan", "+!g", "+!g <- ", "+!g <- a", "p(1).", "+!x <- .rec(1)", "!g.", "+!a <- b. +!c <- d.", "@l.",
          "+!g : <- a.", "+!g(1 + \"x\") <- a.", "+!g <- a; ; b.", "\"", "+ <- a."]
NOEVENT = ["", "g", "!g", "+", "+!", "+!g(", "+!g <- a", "?g", "+!\"g\"", "+!1", "++g", "@l +!g"]
# other labels than those used
NOLABEL = ["@", "", "l1", "@l", "@l11", "@l1 ", "@@l1", "l2", "@none", "@l1, @l2"]


def wrapped(f, r):
    """f() with line breaks and comments after some statements."""
    old = terms.SEP
    terms.SEP = r.choice(["; ", "; ", ";\n", "; // note\n  ", " ; /* note */ "])
    try:
        return f()
    finally:
        terms.SEP = old


def each_string(x, f):
    if isinstance(x, dict):
        return {k: each_string(y, f) for k, y in x.items()}
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "s" and isinstance(x[1], str):
            return ["s", f(x[1])]
        return [each_string(y, f) for y in x]
    return x


def resolve(case, seed):
    hidden = case.pop("hidden", None)
    if hidden is None:
        return
    r = random.Random(seed)
    plans = hidden["plans"]
    texts, means = {}, {}

    def text(k, depth):
        if not plans:
            return "nothing"
        k %= len(plans)
        if depth > 2:
            return r.choice(NOPLAN)
        if (k, depth) not in texts:
            p = each_string(plans[k], lambda s: put(s, depth + 1))
            # (a literal cannot go over several lines: only the outermost text has breaks)
            t = wrapped(lambda: rplan(p), r) if depth == 0 else rplan(p)
            texts[k, depth] = t
            means[t] = {"x": t, "kind": "plan", "plan": spec_prog({"plans": [p], "rules": [], "beliefs": [], "goals": []})["plans"][0]}
        return texts[k, depth]

    def put(s, depth=0):
        if s[:1] == "§" and s[1:].isdigit():
            return text(int(s[1:]), depth)
        return s
    case["progs"] = [each_string(p, put) for p in case["progs"]]
    case["script"] = [each_string(x, put) for x in case["script"]]
    events = {}

    def look(s):
        from scen import event
        if s[:1] in ("+", "-") and s not in NOEVENT and "<-" not in s and not s.endswith("."):
            try:
                trig, t = event(s)
                events[s] = {"x": s, "kind": "event", "ev": [trig, t[1], len(t[2])]}
            except Exception:
                pass
        return s
    each_string(case["progs"], look)
    each_string(case["script"], look)
    case["means"] = (list(means.values()) + list(events.values()) + [{"x": s, "kind": "noplan"} for s in NOPLAN if s not in means]
                     + [{"x": s, "kind": "noevent"} for s in NOEVENT + [s for s in NOPLAN if s != "+!g"] if s not in events])


LABELS = ["l1", "l2", "l3", "l1[x]", "l2(1)", "l11"]


def exchange(case, r):
    """Moves plans of random programs into messages, and adds questions and removals."""
    progs, script = case["progs"], case["script"]
    names, first_of, taken = {}, {}, []
    for c in script:
        if c[0] not in ("build", "builds"):
            continue
        base = (c[4] if c[0] == "builds" and c[4] else c[2]).split(".")[0]
        for _ in range(c[3] if c[0] == "builds" else 1):
            name, i = base, 1
            while name in taken:
                name, i = base + str(i), i + 1
            first_of.setdefault(c[1], len(taken))
            taken.append(name)
            names.setdefault(c[1], []).append(name)
    for i in range(len(progs)):
        # (not built: a message to nobody)
        names.setdefault(i, ["nobody"])
    n = len(progs)
    for p in progs:
        for pl in p["plans"]:
            if r.random() < 0.4:
                pl["label"] = r.choice(LABELS)
        for pl, after in zip(p["plans"], p["plans"][1:]):
            if "label" in pl and r.random() < 0.25:
                after["label"] = pl["label"]
    hidden = prog()

    def fixed(p, pl):
        return any(g[1] == pl["head"][1] for g in p["goals"]) and pl["trig"] == "+!"
    orders = []

    def order(to, force, text, starts):
        """A statement somewhere in some agent's plans."""
        t = r.randrange(n)
        name = r.choice(names[to])
        rcv = r.choice([atom(name), st(name), lst([atom(name)])]) if r.random() < 0.9 else \
            lst([atom(r.choice(names[i])) for i in r.sample(range(n), r.randint(0, n))])
        x = ["send", rcv, atom(force), st(text)]
        p = progs[t]
        first = [pl for pl in p["plans"] if fixed(p, pl) and pl["body"]]
        pool = [pl for q in progs + [hidden] for pl in q["plans"] if pl["body"]]
        if starts and first:
            r.choice(first)["body"].insert(0, x)
            orders.append(t)
        elif pool:
            b = r.choice(pool)["body"]
            b.insert(r.randint(0, len(b)), x)
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        j = r.randrange(n)
        cand = [pl for pl in progs[j]["plans"] if not fixed(progs[j], pl)]
        if not cand:
            continue
        pl = r.choice(cand)
        k = len(hidden["plans"])
        hidden["plans"].append(copy.deepcopy(pl))
        if r.random() < 0.6:
            progs[j]["plans"] = [q for q in progs[j]["plans"] if q is not pl]
        to = j if r.random() < 0.85 else r.randrange(n)
        for _ in range(r.choice([1, 1, 1, 2])):
            order(to, "tellHow", "§%d" % k, r.random() < 0.75)
    alltrigs = [(pl["trig"], pl["head"][1], len(pl["head"][2])) for p in progs + [hidden] for pl in p["plans"]]
    for _ in range(r.choice([0, 1, 1, 2])):
        if not alltrigs:
            break
        trig, f, m = r.choice(alltrigs)
        t = trig + f
        if m and r.random() < 0.6:
            m = m if r.random() < 0.85 else m + 1
            t += "(" + ", ".join(r.choice(["X", "_", "1", "a", "Y"]) for _ in range(m)) + ")"
        if r.random() < 0.08:
            t = r.choice(NOEVENT + ["+!unknown", "-!" + f, "+unknown(X)"])
        order(r.randrange(n), "askHow", t, r.random() < 0.6)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        t = "@" + r.choice(["l1", "l2", "l3", "l1", "l11"]) if r.random() < 0.85 else r.choice(NOLABEL)
        order(r.randrange(n), "untellHow", t, r.random() < 0.4)
    if r.random() < 0.06:
        order(r.randrange(n), "tellHow", r.choice(NOPLAN), False)
    case["hidden"] = hidden
    # those who teach go first
    if orders and r.random() < 0.8:
        i = max(k for k, c in enumerate(script) if c[0] in ("build", "builds")) + 1
        script[i:i] = [["step", first_of.get(t, 0), r.randrange(2, 9)] for t in dict.fromkeys(orders)]
    return case
