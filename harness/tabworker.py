"""Applies parts of the implementation to the inputs of rows and records the outcomes.

usage: tabworker.py ROWS.json OUT.json        (one process, one hash seed)
"""
import sys, os, json, random, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
from worker import enc, dec, agentspeak, signal, Abort
import operator

AE = (agentspeak.AslError, TypeError, ZeroDivisionError, OverflowError, ValueError, AttributeError,
      agentspeak.AggregatedError)


def spell(t, r):
    """A real ground term: whole numbers as int or float, lists in either notation."""
    k = t[0]
    if k == "n" and t[2] <= 0:
        return float.fromhex(t[1]) * (1 if t[2] == 0 else -1)
    if k == "n":
        v = t[1] if t[2] == 1 else t[1] / t[2]
        return float(v) if r.random() < 0.5 else v
    if k == "l":
        e = [spell(x, r) for x in t[1]]
        n = len(e) if r.random() < 0.6 else r.randrange(len(e) + 1)
        out = tuple(e[n:])
        if n == len(e):
            return tuple(e) if r.random() < 0.5 else mk(e, ())
        return mk(e[:n], out)
    if k == "c":
        return agentspeak.LinkedList(spell(t[1], r), spell(t[2], r))
    if k == "f":
        ann = [spell(x, r) for x in t[3]]
        r.shuffle(ann)
        return agentspeak.Literal(t[1], [spell(x, r) for x in t[2]], ann)
    if k == "u":
        return agentspeak.UnaryExpr(worker.UNOPS[t[1]], spell(t[2], r))
    if k == "e":
        return agentspeak.BinaryExpr(worker.BINOPS[t[1]], spell(t[2], r), spell(t[3], r))
    return dec(t, {})


def mk(elems, tail):
    for e in reversed(elems):
        tail = agentspeak.LinkedList(e, tail)
    return tail


def values(vs, n, scope):
    memo, em = {}, {}
    out = []
    for i in range(1, n + 1):
        try:
            out.append(enc(agentspeak.freeze(vs[i], scope, memo), em))
        except AE:
            out.append(["err"])
        except RecursionError:
            out.append(["other", "infinite"])
    return out


def before_ok(a, b, vs, scope, stack):
    try:
        return agentspeak.unify(dec(a, vs), dec(b, vs), scope, stack)
    except Exception:
        return False


def uni(row):
    n = row["nv"]

    def attempt(swap):
        vs = {i: agentspeak.Var() for i in range(1, n + 1)}
        scope, stack = {}, collections.deque()
        for a, b in row["prior"]:
            if not before_ok(a, b, vs, scope, stack):
                return "prior", [], True
        before = dict(scope)
        cp = object()
        stack.append(cp)
        x, y = dec(row["x"], vs), dec(row["y"], vs)
        if swap:
            x, y = y, x
        try:
            res = agentspeak.unify(x, y, scope, stack)
            st = "yes" if res is True else "no" if res is False else repr(res)
        except AE:
            st = "err"
        except Exception as e:       # no defined outcome
            return "crash: %r" % (e,), [], True
        vals = values(vs, n, scope) if st == "yes" else []
        agentspeak.reroll(scope, stack, cp)
        back = set(scope) == set(before) and all(scope[k] is before[k] for k in scope)
        return st, vals, back and len(stack) == len(before)
    row["st"], row["vals"], b1 = attempt(False)
    row["st2"], row["vals2"], b2 = attempt(True)
    row["back"] = b1 and b2


def ann(row):
    n = row["nv"]
    vs = {i: agentspeak.Var() for i in range(1, n + 1)}
    scope, stack = {}, collections.deque()
    for a, b in row["prior"]:
        if not before_ok(a, b, vs, scope, stack):
            row.update(st="prior", vals=[], n=0, back=True)
            return
    before = dict(scope)
    p, q = dec(row["p"], vs), dec(row["q"], vs)
    depth = len(stack)
    row["vals"], row["n"] = [], 0
    try:
        for _ in agentspeak.unify_annotated(p, q, scope, stack):
            row["n"] += 1
            if row["n"] == 1:
                row["vals"] = values(vs, n, scope)
        row["st"] = "yes" if row["n"] else "no"
    except AE:
        row["st"] = "err"
    except Exception as e:
        row["st"] = "crash: %r" % (e,)
        row["vals"], row["back"] = [], True
        return
    row["back"] = row["st"] == "err" or (set(scope) == set(before) and all(scope[k] is before[k] for k in scope)
                                         and len(stack) == depth)
    # the same through the one-shot test, left open by the caller
    if row["back"] and row["st"] in ("yes", "no"):
        got = agentspeak.unifies_annotated(p, q, dict(before), collections.deque())
        if got != (row["st"] == "yes"):
            row["st"], row["back"] = "differs", False


def tf(f):
    try:
        r = f()
    except AE:
        return "err"
    return "true" if r is True else "false" if r is False else repr(r)


ORD = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def cmp_(row):
    r = random.Random(row.get("sp", 0))
    a, b = spell(row["a"], r), spell(row["b"], r)
    a2, b2 = spell(row["a"], r), spell(row["b"], r)

    def ex(op, x, y):
        v1, v2 = agentspeak.Var(), agentspeak.Var()
        return tf(lambda: agentspeak.evaluate(agentspeak.BinaryExpr(worker.BINOPS[op], v1, v2), {v1: x, v2: y}))
    w = agentspeak.Literal("w", (a,)), agentspeak.Literal("w", (b,))
    row["eq"] = {"run": ex("==", a, b), "rev": ex("==", b, a), "in": tf(lambda: w[0] == w[1])}
    row["ne"] = {"run": ex("\\==", a, b), "in": tf(lambda: w[0] != w[1])}
    row["samehash"] = hash(w[0]) == hash(agentspeak.Literal("w", (a2,))) and (
        hash(w[0]) == hash(w[1]) if w[0] == w[1] else True)
    row["setsize"] = len({w[0], w[1], agentspeak.Literal("w", (a2,)), agentspeak.Literal("w", (b2,))})
    row["unifies"] = tf(lambda: agentspeak.unifies(a, b))
    row["ord"] = {op: ex(op, a, b) for op in ORD}
    row["rev"] = {op: ex(op, b, a) for op in ORD}


def sort(row):
    r = random.Random(row.get("sp", 0))
    q = [spell(t, r) for t in row["elems"]]
    try:
        s = sorted(q)
        row["sorted"] = [enc(x, {}) for x in s]
        row["min"] = enc(min(q), {}) if q else ["w"]
        row["max"] = enc(max(q), {}) if q else ["w"]
        row["st"] = "ok"
    except TypeError:
        row["st"] = "err"


def set_(row):
    """Facts added one after the other to the beliefs of an agent."""
    r = random.Random(row.get("sp", 0))
    import agentspeak.runtime, agentspeak.stdlib
    env = agentspeak.runtime.Environment()
    ag = env.build_agent(agentspeak.StringSource("a.asl", ""), agentspeak.stdlib.actions)
    for t in row["elems"]:
        ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief, spell(t, r),
                agentspeak.runtime.Intention())
    row["stored"] = [enc(b, {}) for group in ag.beliefs.values() for b in group]


OPS = {"uni": uni, "ann": ann, "cmp": cmp_, "sort": sort, "set": set_}
try:
    import tabmore
    OPS.update(tabmore.OPS)
except ImportError:
    pass


def main():
    rows = json.load(open(sys.argv[1]))
    slow = 0
    for i, row in enumerate(rows):
        if slow >= 3:           # something hangs: three are enough to show it
            rows[i] = {"k": "x", "what": "skipped"}
            continue
        signal.alarm(row.pop("alarm", 20))
        try:
            OPS[row["k"]](row)
        except Abort:
            rows[i] = {"k": "x", "what": "no end"}
            slow += 1
        except (Exception, RecursionError) as e:
            rows[i] = {"k": "x", "what": "raised %s: %s" % (type(e).__name__, str(e)[:200])}
        signal.alarm(0)
    with open(sys.argv[2], "w") as f:
        json.dump(rows, f)


if __name__ == "__main__":
    main()
