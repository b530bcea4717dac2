"""More operations of tabworker.py: parsing, expressions, tokens, includes, printing."""
import sys, os, re, json, logging, zlib
import worker
from worker import enc, dec, enc_num, agentspeak, Abort
import agentspeak.parser, agentspeak.lexer
P = agentspeak.parser


class Formatted(logging.Handler):
    """Formats every message the way the command line does."""

    def __init__(self):
        super().__init__()
        self.setFormatter(agentspeak.LogFormatter())
        self.bad = None
        self.records = []

    def emit(self, record):
        try:
            self.records.append((record.levelname, self.format(record), getattr(record, "loc", None)))
        except Exception as e:
            self.bad = "message could not be formatted: %r" % (e,)


def new_log(max_errors=None):
    logger = logging.Logger("verif")
    h = Formatted()
    logger.addHandler(h)
    return agentspeak.Log(logger, max_errors), h


def const(v):
    if isinstance(v, bool):
        return ["b", v]
    if agentspeak.is_number(v):
        return enc_num(v)
    if isinstance(v, str):
        return ["s", v]
    return ["other", repr(v)]


def ast(n):
    """The tree as in spec/Grammar.tla."""
    if n is None:
        return ["none"]
    if isinstance(n, P.AstLiteral):
        return ["f", n.functor, [ast(x) for x in n.terms], [ast(x) for x in n.annotations]]
    if isinstance(n, P.AstList):
        return ["l", [ast(x) for x in n.terms]]
    if isinstance(n, P.AstLinkedList):
        return ["c", ast(n.head), ast(n.tail)]
    if isinstance(n, P.AstVariable):
        return ["v", n.name]
    if isinstance(n, P.AstConst):
        return const(n.value)
    if isinstance(n, P.AstUnaryOp):
        return ["u", n.operator.value.lexeme, ast(n.operand)]
    if isinstance(n, P.AstBinaryOp):
        return ["e", n.operator.value.lexeme, ast(n.left), ast(n.right)]
    if isinstance(n, P.AstFormula):
        return ["fm", n.formula_type.value, ast(n.term)]
    if isinstance(n, P.AstWhile):
        return ["while", ast(n.condition), body(n.body)]
    if isinstance(n, P.AstFor):
        return ["for", ast(n.generator), body(n.body)]
    if isinstance(n, P.AstIfThenElse):
        return ["if", ast(n.condition), body(n.if_body), body(n.else_body)]
    if isinstance(n, P.AstRule):
        return [ast(n.head), ast(n.consequence)]
    if isinstance(n, P.AstGoal):
        return ast(n.atom)
    if isinstance(n, P.AstPlan):
        return [ast(n.annotation), n.event.trigger.value, n.event.goal_type.value, ast(n.event.head),
                ast(n.context), body(n.body)]
    return ["other", repr(n)[:60]]


def body(b):
    return [ast(x) for x in b.formulas] if b is not None else []


def program(a):
    return {"b": [ast(x) for x in a.beliefs], "r": [ast(x) for x in a.rules], "g": [ast(x) for x in a.goals],
            "p": [ast(x) for x in a.plans]}


def parse_text(text, name="a.asl", max_errors=None):
    """(st, program or None)"""
    log, h = new_log(max_errors)
    src = agentspeak.StringSource(name, text)
    try:
        tokens = agentspeak.lexer.TokenStream(src, log, 1)
        a = P.parse(name, tokens, log)
        log.throw()
        st = "ok"
    except agentspeak.AggregatedError as e:
        st, a = "err", None
        if not any(r[0] in ("ERROR", "CRITICAL") for r in h.records):
            st = "crash: nothing was reported"
    except RecursionError:
        raise
    except Abort:
        raise
    except Exception as e:
        st, a = "crash: %s: %s" % (type(e).__name__, str(e)[:150]), None
    if h.bad:
        st, a = "crash: " + h.bad, None
    return st, a, h


NOPROG = {"b": [], "r": [], "g": [], "p": []}


def parse(row):
    st, a, _ = parse_text(row["text"], max_errors=row.get("maxe"))
    row["st"], row["ast"] = st, program(a) if a is not None else NOPROG


FORMS = {
    "arg": "+!start(%(names)s) <- .rec(%(e)s).",
    "goal": "+!start(%(names)s) <- !g(%(e)s).\n+!g(Got) <- .rec(Got).",
    "unify": "+!start(%(names)s) <- Got = (%(e)s); .rec(Got).",
    "fact": "v(%(e)s).\n+!start(%(names)s) <- ?v(Got); .rec(Got).",
    "cond": "+!start(%(names)s) <- if (%(e)s) { .rec(%(all)s) } else { .no }.",
    "ctx": "+!start(%(names)s) : %(e)s <- .rec(%(all)s).\n+!start(%(wild)s) <- .no.",
    "rule": "holds(%(names)s) :- %(e)s.\n+!start(%(names)s) <- if (holds(%(names)s)) { .rec(%(all)s) } else { .no }.",
    "while": "+!start(%(names)s) <- while (not done & (%(e)s)) { +done }; if (done) { .rec } else { .no }.",
}


def expr(row):
    """Evaluates an expression somewhere in a program."""
    given = [n for n, _ in row["env"]]
    names = ", ".join(["zero"] + given)
    d = {"names": names, "all": ", ".join(row["names"]), "e": row["text"], "wild": ", ".join("_" for _ in range(len(given) + 1))}
    text = FORMS[row["use"]] % d + "\n+!boot(%s) <- !start(%s).\n" % (names, names)
    text = text.replace(".rec()", ".rec")
    acts = agentspeak.Actions(agentspeak.stdlib.actions)
    got = []

    @acts.add(".rec")
    def rec(agent, term, intention):
        memo, em = {}, {}
        got.append([enc(agentspeak.freeze(t, intention.scope, memo), em) for t in term.args])
        yield

    @acts.add(".no", 0)
    def no(agent, term, intention):
        got.append(None)
        yield
    import tabworker, random
    r = random.Random(row.get("sp", 0))
    env = agentspeak.runtime.Environment()
    row["vals"] = []
    try:
        ag = env.build_agent(agentspeak.StringSource("a.asl", text), acts)
    except agentspeak.AggregatedError:
        row["st"] = "load"
        return
    except agentspeak.AslError:
        row["st"] = "err"
        return
    except (Exception, RecursionError) as e:
        row["st"] = "crash when loading: %s: %s" % (type(e).__name__, str(e)[:100])
        return
    try:
        start = agentspeak.runtime.Intention()
        for b in row["bel"]:
            ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief, tabworker.spell(b, r), start)
        goal = agentspeak.Literal("boot", [agentspeak.Literal("zero")] + [tabworker.spell(t, r) for _, t in row["env"]])
        ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, goal, start)
        n = 0
        while ag.step():
            n += 1
            if n > 200:
                row["st"] = "no end"
                return
    except (agentspeak.AslError, agentspeak.AggregatedError):
        row["st"] = "err"
        return
    except (Exception, RecursionError) as e:
        row["st"] = "crash: %s: %s" % (type(e).__name__, str(e)[:100])
        return
    if len(got) != 1:
        row["st"] = "%d outcomes" % len(got)
    elif got[0] is None:
        row["st"] = "no"
    else:
        row["st"], row["vals"] = "yes", got[0]


def roles(t):
    """What the token is taken for."""
    def v(x, lexeme=False):
        return "" if x is None else x.value.lexeme if lexeme else x.value
    return ["" if t.boolean is None else "true" if t.boolean else "false", v(t.trigger), v(t.goal_type),
            v(t.formula_type), v(t.unary_op, True), v(t.mult_op, True), v(t.add_op, True), v(t.comp_op, True)]


def lex(row):
    log, h = new_log()
    src = agentspeak.StringSource(row["file"], "".join(row["text"]))
    row["toks"], row["roles"], row["lines"], row["errs"], row["msgs"], row["st"] = [], [], [], [], [], "ok"
    if row["via"] == "stream":
        def tokens():
            ts = agentspeak.lexer.TokenStream(src, log, row["first"])
            if ts.peek() is not None:
                row["st"] = "something before the first token"
            while True:
                try:
                    t = next(ts)
                except StopIteration:
                    return
                if ts.peek() is not t:
                    row["st"] = "the current token is not the last one"
                yield t
        it = tokens()
    else:
        it = agentspeak.lexer.tokenize(src, log, row["first"])
    for t in it:
        k = t.token
        cls = [c for c, f in (("f", k.functor), ("n", k.numeric), ("v", k.variable), ("s", k.string)) if f] or ["o"]
        if k.space or k.comment or t.loc.filename != row["file"]:
            row["st"] = "space or comment given as a token" if k.space or k.comment else "another file named"
        row["toks"].append(["".join(cls), t.lexeme, t.loc.lineno, t.loc.startcol, t.loc.endcol])
        row["lines"].append(t.loc.line)
        row["roles"].append(roles(k))
    if h.bad:
        row["st"] = h.bad
    for level, text, loc in h.records:
        if level != "ERROR":
            continue
        row["errs"].append([loc.lineno, loc.startcol])
        text = re.sub("\x1b\\[[0-9;]*m", "", text).split("\n")
        m = re.match(r"(.*?:\d+:\d+): ", text[0])
        row["msgs"].append([m.group(1) if m else "?"] + text[1:])
    if len(row["errs"]) != log.num_errors:
        row["st"] = "%d errors counted, %d reported" % (log.num_errors, len(row["errs"]))


def inc(row):
    """Parses the file row["main"] of a file system made for the occasion."""
    import tempfile, shutil
    base = os.path.realpath(tempfile.mkdtemp(prefix="inc", dir=os.environ.get("VERIF_WORK")))
    root = os.path.join(base, "r")
    os.mkdir(root)
    back = os.getcwd()
    row["ast"], row["from"] = NOPROG, {"b": [], "r": [], "g": [], "p": []}
    try:
        for x in row["fs"]:
            path = os.path.join(root, *x["at"])
            if x["k"] == "dir":
                os.makedirs(path, exist_ok=True)
        for x in row["fs"]:
            path = os.path.join(root, *x["at"])
            if x["k"] == "file":
                with open(path, "w") as f:
                    f.write(x["text"].replace('"@/', '"' + root + "/"))
            elif x["k"] == "link":
                to = "/".join(x["to"]) or "."
                os.symlink(root + "/" + to if x["top"] else to, path)
        os.chdir(root)
        log, h = new_log()
        main = row["main"]
        if main.startswith("@/"):
            main = root + main[1:]
        with open(main) as f:
            try:
                a = P.parse(main, agentspeak.lexer.TokenStream(f, log, 1), log)
                log.throw()
                row["st"] = "ok"
            except agentspeak.AggregatedError:
                row["st"] = "err" if any(r[0] == "ERROR" for r in h.records) else "nothing was reported"
        if h.bad:
            row["st"] = h.bad
        if row["st"] == "ok":
            def at(n):
                return os.path.relpath(os.path.realpath(n.loc.filename), root).split("/")
            row["ast"] = program(a)
            row["from"] = {"b": [at(x) for x in a.beliefs], "r": [at(x) for x in a.rules],
                           "g": [at(x) for x in a.goals], "p": [at(x) for x in a.plans]}
        for x in row["fs"]:
            x.pop("text", None)
    finally:
        os.chdir(back)
        shutil.rmtree(base)


def big(x):
    """Numbers of any size: as in spec/Terms.tla."""
    n = enc_num(x)
    if n[0] == "n":
        return n
    return named(x)


def named(x):
    return ["n", zlib.crc32(float(abs(x)).hex().encode()) >> 1, 0 if x > 0 else -1]


def tokens_of(text):
    """The tokens of a text as in spec/Grammar.tla, or None."""
    import ast as pyast
    log, h = new_log()
    out = []
    for t in agentspeak.lexer.tokenize(agentspeak.StringSource("p.asl", text), log, 1):
        k = t.token
        if k.functor:
            out.append(["f", t.lexeme])
        elif k.variable:
            out.append(["v", t.lexeme])
        elif k.numeric:
            out.append(big(float(t.lexeme)))
        elif k.string:
            out.append(["s", pyast.literal_eval(t.lexeme)])
        else:
            out.append(["o", t.lexeme])
    return None if log.num_errors else out


def with_big(f):
    """f with numbers of any size encoded."""
    keep, keep2 = worker.enc_num, enc_num
    g = globals()

    def any_size(x):
        n = keep(x)
        if x != x:
            return n
        return n if n[0] == "n" else named(x)

    def wrapped(row):
        worker.enc_num = g["enc_num"] = any_size
        try:
            f(row)
        finally:
            worker.enc_num, g["enc_num"] = keep, keep2
    return wrapped


def print_(row):
    """Prints a parsed program and parses it again."""
    row["st"], row["toks"], row["ast"], row["again"] = "ok", [], NOPROG, NOPROG
    st, a, _ = parse_text(row["text"])
    if a is None:
        row.update(k="x", what="und")
        return
    row["ast"] = program(a)
    if '["other", "nan"]' in json.dumps(row["ast"]):      # has no name and equals nothing
        row.update(k="x", what="und")
        return
    row["printed"] = str(a)
    if program(a) != row["ast"]:
        row["st"] = "printing changes the program"
        return
    try:
        row["toks"] = tokens_of(row["printed"])
    except (SyntaxError, ValueError) as e:
        row["toks"] = None
    if row["toks"] is None:
        row.update(k="x", what="the printed form has a broken token")
        return
    row["st"], b, h = parse_text(row["printed"])
    if b is not None:
        row["again"] = program(b)
    elif h.records:
        row["st"] += ": " + re.sub("\x1b\\[[0-9;]*m", "", h.records[0][1])[:150]


def name_big(t):
    """Numbers spelled out in a term replaced by their names."""
    if t[0] == "n" and t[2] <= 0:
        return named(float.fromhex(t[1]) * (1 if t[2] == 0 else -1))
    return [name_big(x) if isinstance(x, list) and x and isinstance(x[0], str) else
            [name_big(y) for y in x] if isinstance(x, list) else x for x in t]


def repr_(row):
    """Prints a ground term and reads it as part of a program."""
    import tabworker, random
    r = random.Random(row.get("sp", 0))
    t = tabworker.spell(row["t"], r)
    row["t"] = name_big(row["t"])
    row["st"], row["toks"], row["again"] = "ok", [], ["w"]
    row["printed"] = agentspeak.asl_repr(t)
    if agentspeak.is_literal(t) and str(t) != row["printed"]:
        row.update(k="x", what="two printed forms")
        return
    try:
        row["toks"] = tokens_of(row["printed"])
    except (SyntaxError, ValueError) as e:
        row["toks"] = None
    if row["toks"] is None:
        row.update(k="x", what="the printed form has a broken token")
        return
    env = agentspeak.runtime.Environment()
    acts = agentspeak.Actions(agentspeak.stdlib.actions)
    got = []

    @acts.add(".rec")
    def rec(agent, term, intention):
        got.append(enc(agentspeak.grounded(term.args[0], intention.scope), {}))
        yield
    text = {"fact": "v(%s).\n!go.\n+!go <- ?v(X); .rec(X).\n", "arg": "!go.\n+!go <- .rec(%s).\n"}[row["use"]]
    try:
        ag = env.build_agent(agentspeak.StringSource("a.asl", text % row["printed"]), acts)
        n = 0
        while ag.step() and n < 100:
            n += 1
    except Exception as e:
        row["st"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        return
    if len(got) != 1:
        row["st"] = "not understood"
    else:
        row["again"] = got[0]


SPECS = {"any": None, "int": int, "float": float, "str": agentspeak.asl_str, "tuple": tuple,
         "lit": agentspeak.Literal, "bool": bool, "text": str,
         "env": agentspeak.runtime.Environment, "agent": agentspeak.runtime.Agent}


class HostError(Exception):
    pass


def host(row):
    """Registers host actions, runs a program calling them and records the calls."""
    import tabworker, random, terms
    r = random.Random(row["sp"])
    log = []
    env = agentspeak.runtime.Environment()
    chain = [None] * row["depth"]
    parent = None
    for i in reversed(range(row["depth"])):
        parent = chain[i] = agentspeak.Actions(parent) if parent is not None or r.random() < 0.5 else agentspeak.Actions()
    current = []

    def seen(g, args):
        kinds, vals, em = [], [], {}
        for s, a in zip(g["specs"] if g["kind"] != "raw" else [None] * len(args), args):
            if s == "env":
                kinds.append("env" if a is env else "another")
                vals.append(["b", True])
            elif s == "agent":
                kinds.append("agent" if a is current[0] else "another")
                vals.append(["b", True])
            else:
                kinds.append(type(a).__name__)
                vals.append(enc(a, em))
        if len(args) != len(kinds):
            kinds.append("%d arguments" % len(args))
        log.append([g["id"], kinds, vals])

    def spell(t):
        # (a list made of pairs has another text)
        if t[0] == "l" and not row["linked"]:
            return tuple(spell(x) for x in t[1])
        if t[0] == "f" and not row["linked"]:
            return agentspeak.Literal(t[1], [spell(x) for x in t[2]], [spell(x) for x in t[3]])
        return tabworker.spell(t, r)

    def implementation(g):
        res = g["res"]
        if g["kind"] == "raw":
            answers = [spell(t) for t in res[1]]

            def f(agent, term, intention):
                memo = {}
                seen(g, [agentspeak.freeze(t, intention.scope, memo) for t in term.args])
                if agent is not current[0]:
                    log.append([g["id"], ["called by another agent"], []])
                for a in answers:
                    if not term.args:
                        yield
                        continue
                    choicepoint = object()
                    intention.stack.append(choicepoint)
                    if agentspeak.unify(term.args[0], a, intention.scope, intention.stack):
                        yield
                    agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            return f
        val = spell(res[1]) if res[0] == "val" else None
        cmp = tabworker.enc(spell(res[2]), {}) if res[0] == "eq" else None

        def f(*args):
            seen(g, args)
            if res[0] == "raise":
                raise HostError("raised by the host")
            if res[0] == "val":
                return val
            if res[0] == "arg":
                return args[res[1] - 1]
            if res[0] == "eq":
                return same(enc(args[res[1] - 1], {}), cmp)
            return {"yes": True, "no": False, "none": None}[res[0]]
        return f

    def register(adds):
        for a in adds:
            g = a["reg"]
            acts = chain[a["level"] - 1]
            f = implementation(g)
            try:
                if g["kind"] == "raw":
                    args = [g["name"]] + ([g["arity"]] if g["arity"] >= 0 else [])
                    method = acts.add
                else:
                    specs = [SPECS[s] for s in g["specs"]]
                    args = [g["name"], specs[0] if g["single"] else tuple(specs) if r.random() < 0.7 else specs]
                    method = getattr(acts, "add_" + g["kind"])
                if r.random() < 0.5:
                    got = method(*args)(f)
                else:
                    got = method(*args, f=f)
                a["ok"] = True
            except AssertionError:
                a["ok"] = False

    fin = []

    @chain[0].add(".vh_fin", row["nv"])
    def vh_fin(agent, term, intention):
        memo, em = {}, {}
        fin.append([enc(agentspeak.freeze(t, intention.scope, memo), em) for t in term.args])
        yield

    @chain[-1].add(".vh_other", 0)
    def vh_other(agent, term, intention):
        fin.append(None)
        yield
    text = "\n".join(terms.rt(b) + "." for b in row["facts"]) + "\n"
    for x in row["rules"]:
        text += "%s :- %s.\n" % (terms.rt(x["head"]), terms.rq(x["q"]))
    body = [terms.rq(q) for q in row["body"]] + [".vh_fin(%s)" % ", ".join("V%d" % (i + 1) for i in range(row["nv"]))]
    text += "+!go : %s <- %s.\n+!go <- .vh_other.\n+!boot <- !go.\n" % (terms.rq(row["ctx"]) if row["ctx"] else "false", "; ".join(body))
    row["text"] = text

    def attempt():
        """Builds two agents and runs both: what became of the goal, the calls, the variables."""
        try:
            agents = env.build_agents(agentspeak.StringSource("a.asl", text), 2, chain[0])
        except (agentspeak.AggregatedError, agentspeak.AslError) as e:
            return "not loaded: %s" % e, [], []
        runs = []
        for ag in agents:
            log.clear()
            fin.clear()
            current[:] = [ag]
            try:
                ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, agentspeak.Literal("boot"),
                        agentspeak.runtime.Intention())
                n = 0
                while ag.step():
                    n += 1
                    if n > 300:
                        return "no end", [], []
                st = "%d outcomes" % len(fin) if len(fin) != 1 else "other" if fin[0] is None else "sol"
            except (agentspeak.AslError, agentspeak.AggregatedError):
                st = "stop"
            except Abort:
                raise
            except (Exception, RecursionError) as e:
                st = "crash: %s: %s" % (type(e).__name__, str(e)[:100])
            runs.append((st, list(log), fin[0] if st == "sol" else []))
        if len(runs) != 2:
            return "%d agents" % len(runs), [], []
        if runs[1] != runs[0]:
            return "two agents differ: %s" % (runs[1],), [], []
        return runs[0]
    row["runs"] = []
    for adds in [row["adds"][:row["cut"]], row["adds"][row["cut"]:]]:
        if adds or not row["runs"]:
            register(adds)
            st, calls, vals = attempt()
            row["runs"].append({"st": st, "log": calls, "vals": vals})


def same(a, b):
    if a[0] == "f" and b[0] == "f":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(map(same, a[2], b[2])) and \
            sorted(map(repr, a[3])) == sorted(map(repr, b[3]))
    if a[0] == "l" and b[0] == "l":
        return len(a[1]) == len(b[1]) and all(map(same, a[1], b[1]))
    return a == b


def report(row):
    """Runs a program and records what it showed and which errors were logged."""
    row["out"], row["errs"] = [], []
    if row["cmd"]:
        return report_cmd(row)
    env = agentspeak.runtime.Environment()
    acts = agentspeak.Actions(agentspeak.stdlib.actions)

    @acts.add(".print")
    def show(agent, term, intention):
        memo = {}
        row["out"] += [int(agentspeak.freeze(t, intention.scope, memo)) for t in term.args]
        yield

    @acts.add(".boom", 0)
    def boom(agent, term, intention):
        raise HostError("boom")
        yield
    acts.add_procedure(".boom2", (None,), lambda x: [][1])
    worker.TAP.records = []
    worker._CUR["env"] = None
    st = "done"
    try:
        try:
            ag = env.build_agent(agentspeak.StringSource("a.asl", row["text"]), acts)
            built = True
        except agentspeak.AggregatedError:
            st = "rejected"
        else:
            env.agents = {"a": ag}
            try:
                n = 0
                while ag.step():
                    n += 1
                    if n > 5000:
                        st = "no end"
                        break
            except agentspeak.AggregatedError:
                st = "failed"
    except Abort:
        raise
    except (Exception, RecursionError) as e:
        st = "crash: %s: %s" % (type(e).__name__, str(e)[:100])
    row["st"] = st
    for level, msg, loc in worker.TAP.records:
        if level >= logging.ERROR:
            row["errs"].append([loc[1], loc[2]] if loc and loc[0] == "a.asl" else [])


def report_cmd(row):
    """The same with the command line."""
    import subprocess, tempfile
    boom = ".raise"
    text = row["text"].replace(".boom2(1)", ".raise(\"xy\")").replace(".boom", ".raise")
    with tempfile.TemporaryDirectory(prefix="verif_") as d:
        with open(os.path.join(d, "a.asl"), "w") as f:
            f.write(text)
        p = subprocess.run([sys.executable, "-m", "agentspeak", "a.asl"], cwd=d, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PYTHONPATH=worker.REPO, PYTHONDONTWRITEBYTECODE="1"), stdin=subprocess.DEVNULL)
    for line in p.stdout.splitlines():
        w = line.split()
        if w and w[-1].isdigit():
            row["out"].append(int(w[-1]))
    err = re.sub("\x1b\\[[0-9;]*m", "", p.stderr)
    for m in re.finditer(r"^(?:a\.asl:(\d+):(\d+): )?error: ", err, re.M):
        row["errs"].append([int(m.group(1)), int(m.group(2)) - 1] if m.group(1) else [])
    row["stderr"] = err[-1500:]
    ran = p.returncode == 0
    row["st"] = "done" if ran else "rejected" if row["bad"] else "failed"
    if not ran and p.returncode != 1:
        row["st"] = "exit status %d" % p.returncode


OPS = {"parse": parse, "expr": expr, "lex": lex, "inc": inc, "print": with_big(print_), "repr": with_big(repr_), "host": host, "report": report}


def act(row):
    """Calls a built-in action in a loop over its answers and records the variables at every answer."""
    import terms, io, contextlib, datetime, re
    import agentspeak.ext_stdlib
    nv = row["nv"]
    acts = agentspeak.Actions(agentspeak.ext_stdlib.actions)
    got = {"sols": [], "after": None}

    def values(term, intention):
        memo, em = {}, {}
        return [enc(agentspeak.freeze(t, intention.scope, memo), em) for t in term.args]

    @acts.add(".vh_rec", nv)
    def rec(agent, term, intention):
        got["sols"].append(values(term, intention))
        yield

    @acts.add(".vh_end", nv)
    def end(agent, term, intention):
        got["after"] = values(term, intention)
        yield
    bound = [i for i, h in enumerate(row["how"]) if h]

    @acts.add(".vh_bind", nv + len(bound))
    def bind(agent, term, intention):
        vs = {i + 1: v for i, v in enumerate(term.args[:nv])}
        for a, i in zip(term.args[nv:], bound):
            if not agentspeak.unify(a, dec(row["args"][i], vs), intention.scope, intention.stack):
                return
        yield
    names = ["V%d" % (i + 1) for i in range(nv)]
    given = ["A%d" % i if row["how"][i] else terms.rt(t) for i, t in enumerate(row["args"])]
    text = "".join(terms.rt(b) + ".\n" for b in row["facts"])
    for x in row["rules"]:
        text += "%s :- %s.\n" % (terms.rt(x["head"]), terms.rq(x["q"]))
    body = ["%s = %s" % (terms.rt(a), terms.rt(b)) for a, b in row["prior"]]
    body.append(".vh_bind(%s)" % ", ".join(names + ["A%d" % i for i in bound]))
    body.append("for (%s%s) { .vh_rec(%s) }" % (row["name"], "(%s)" % ", ".join(given) if given else "", ", ".join(names)))
    body.append(".vh_end(%s)" % ", ".join(names))
    text += "!go.\n+!go <- %s.\n" % "; ".join(body)
    row["text"] = text

    def clock():
        d = datetime.datetime.now()
        return [d.year, d.month, d.day] if row["name"] == ".date" else [d.hour, d.minute, d.second]
    row["clock"] = [clock()]
    row["sols"], row["after"], row["out"] = [], [], []
    env = agentspeak.runtime.Environment()
    import signal
    signal.alarm(8)
    try:
        ag = env.build_agent(agentspeak.StringSource("a.asl", text), acts)
    except (agentspeak.AggregatedError, agentspeak.AslError):
        row["st"] = "not loaded"
        return
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            n = 0
            while ag.step():
                n += 1
                if n > 400:
                    row["st"] = "no end"
                    return
        row["st"] = "ok"
    except (agentspeak.AggregatedError, agentspeak.AslError):
        row["st"] = "err"
    except Abort:
        # (infinite terms lie outside)
        row["st"] = "no end"
        return
    row["clock"].append(clock())
    row["sols"] = got["sols"]
    if row["st"] == "ok":
        if got["after"] is None:
            row["st"] = "did not end"
            return
        row["after"] = got["after"]
    lines = re.sub("\x1b\\[[0-9;]*m", "", out.getvalue()).split("\n")
    row["out"] = [x[2:] if x.startswith("a ") else "?" + x for x in lines[:-1]]


OPS["act"] = act
