"""Which programs and schedules each property is checked with."""
import random
import exchange
from terms import *
from gen import Gen, mkgoals, costs, EVB


def settle(r, s, n, prob=0.8):
    """Most runs let the agents finish one after the other before run()."""
    if r.random() < prob:
        for _ in range(r.randrange(1, 3)):
            for i in r.sample(range(n), n):
                s.append(["settle", i])



def script_single(r, prof, nagents=1):
    s = [["build", 0, "a.asl"]]
    for _ in range(r.randrange(0, 3)):
        s.append(["step", 0, r.randrange(1, 12)])
    s.append(["run"])
    s.append(["fin"])
    return s


def single(prof, seed):
    """One agent, run to the end."""
    r = random.Random(seed * 7 + 1)
    for k in range(50):
        g = Gen(seed * 1000 + k, prof)
        p = g.program("a")
        if costs(p) < prof.get("maxcost", 250):
            break
    case = {"progs": [p], "script": script_single(r, prof)}
    if prof.get("calls"):
        calls(r, g, case, 1, prof["calls"])
    return case


def calls(r, g, case, n, k, names=None):
    """Host calls at random places between steps."""
    s = case["script"]
    nb = sum(1 for c in s if c[0] in ("build", "builds"))
    head, tail = s[:nb], s[nb:]
    mid = []
    for _ in range(r.randrange(1, k + 1)):
        a = r.randrange(n)
        kind = r.choice(["+", "+", "-", "+!", "-!", "+?"] if g.w("unach") else ["+", "+", "-", "+!", "+?"])
        if kind in ("+!", "-!"):
            go = r.choice(g.goals)
            t = lit(go["name"], [g.val(ty) if m == "in" or r.random() < 0.3 else var(j + 1) for j, (m, ty) in enumerate(go["sig"])])
            if kind == "-!":
                t = lit(go["name"], [g.val(ty) if r.random() < 0.5 else W for m, ty in go["sig"]])
        else:
            pool = g.preds() + list(EVB) * 2
            p = r.choice(pool)
            from gen import fun
            t = lit(fun(p), [g.val(ty) if kind == "+" or r.random() < 0.6 else r.choice([W, var(j + 1)]) for j, ty in enumerate(g.sig(p))])
        mid.append(["step", r.randrange(n), r.randrange(0, 10)])
        mid.append(["call", a, kind, t])
    case["script"] = head + mid + tail


def multi(prof, seed):
    """Several agents exchanging messages, stepped by a random scheduler, then run to the end."""
    r = random.Random(seed * 7 + 1)
    n = r.choice(prof.get("n", [2, 2, 2, 3]))
    names = ["a", "b", "cc"][:n]
    for k in range(80):
        pr = dict(prof, agents=names)
        rr = random.Random(seed * 1000 + k)
        goals = mkgoals(rr, pr.get("ngoals", 3))
        progs, gens = [], []
        for i in range(n):
            g = Gen(seed * 1000 + k * 10 + i, pr)
            g.tag = 100 * i
            gens.append(g)
            progs.append(g.program(names[i], [dict(x) for x in goals]))
        if sum(costs(p) for p in progs) < prof.get("maxcost", 250):
            break
    s = [["build", i, names[i] + ".asl"] for i in range(n)]
    for _ in range(r.randrange(0, prof.get("sched", 9))):
        s.append(["step", r.randrange(n), r.randrange(1, 14)])
        if prof.get("wait") and r.random() < 0.3:
            s.append(["tick", r.randrange(1, 5)])
    settle(r, s, n, prof.get("settle", 0.8))
    s.append(["run"])
    s.append(["fin"])
    case = {"progs": progs, "script": s}
    if prof.get("calls"):
        calls(r, gens[0], case, n, prof["calls"])
    if prof.get("wait"):
        timing(r, case)
    return case


def timing(r, case):
    race = r.choice([0, 0, 0, 1, 2])
    # a clock that never moves would never reach a deadline
    case["opts"] = {"t0": r.choice([0, 0, 5]), "race": race, "over": r.choice([0, 1, 1, 2] if race else [1, 1, 2])}


def waiting(prof, seed):
    r = random.Random(seed * 7 + 3)
    if r.random() < 0.35:
        return multi(prof, seed)
    for k in range(50):
        g = Gen(seed * 1000 + k, prof)
        p = g.program("a")
        if costs(p) < prof.get("maxcost", 200):
            break
    case = {"progs": [p], "script": [["build", 0, "a.asl"]]}
    for _ in range(r.randrange(0, 5)):
        case["script"].append(["step", 0, r.randrange(1, 10)])
        if r.random() < 0.5:
            case["script"].append(["tick", r.randrange(1, 5)])
    case["script"].append([r.choice(["run", "run", "runagent"]), 0])
    case["script"].append(["fin"])
    if r.random() < 0.5:
        calls(r, g, case, 1, 3)
    timing(r, case)
    return case


def instances(prof, seed):
    """Several instances of one or two programs."""
    r = random.Random(seed * 7 + 5)
    for k in range(50):
        names = ["a", "a1", "b"]
        g = Gen(seed * 1000 + k, dict(prof, agents=["a", "a1"]))
        p = g.program("a")
        g2 = Gen(seed * 1000 + k + 500, dict(prof, agents=["a", "a1"]))
        q = g2.program("b")
        if costs(p) * 2 + costs(q) < prof.get("maxcost", 250):
            break
    m = r.choice([2, 2, 2, 3])
    s = []
    nm = r.choice([None, None, None, "zed"])
    if r.random() < 0.35:
        s += [["build", 0, "a.asl"] for _ in range(m)]
    else:
        s += [["builds", 0, "a.asl", m, nm]]
    n = m
    if r.random() < 0.5 and m < 3:
        s.append(["build", 1, "b.asl"])
        n += 1
    for _ in range(r.randrange(1, 8)):
        s.append(["step", r.randrange(n), r.randrange(1, 14)])
    settle(r, s, n, 0.9)
    s += [["run"], ["fin"]]
    case = {"progs": [p, q], "script": s}
    if r.random() < 0.7:
        calls(r, g, case, n, 4)
    return case


def teaching(prof, seed):
    """Several instances; sometimes one of them is told or loses a plan."""
    case = instances(prof, seed)
    r = random.Random(seed * 23 + 5)
    if r.random() < 0.35:
        exchange.exchange(case, r)
        exchange.resolve(case, seed)
    return case


def exchanging(prof, seed):
    """Several agents; some of their plans travel as text."""
    case = multi(prof, seed)
    exchange.exchange(case, random.Random(seed * 19 + 7))
    exchange.resolve(case, seed)
    return case


P = {
    "C03": (single, dict(rules=1, q_act=2, for_=1, rec=1, add=0.3, rep=0.1, abolish=0.1, ev=0.1, evdel=0.1, ach=0.3,
                         later=0, q=2, bi=1.2, annots=0.25, facts=3, mainlen=6, ngoals=1, evalts=1, noctx=0.3,
                         **{"for": 3, "if": 2, "while": 0.2, "test": 0.3, "fail": 0.02, "q_not": 2, "q_or": 2.5, "q_and": 3.5,
                            "q_recact": 0.3})),
    "C04": (single, dict(annots=0.5, rec=0.3, recafter=0.6, add=3, rep=2.5, abolish=1.5, ev=2, evdel=2, bev=0.5,
                         ach=0.4, q=0.2, bi=0.1, facts=3, mainlen=9, ngoals=1, calls=4, headann=0.3, initev=0.5,
                         **{"del": 4, "for": 0.4, "if": 0.4, "while": 0.2, "fail": 0.03})),
    "C05": (single, dict(annots=0.4, alts=5, evalts=4, catchall=0.8, noctx=0.25, headconst=0.4, headann=0.35, rules=1,
                         ach=5, ev=3, evdel=2, tests=1, test=1.5, rec=1, add=1, ngoals=3, mainlen=7, len=2, calls=4,
                         initev=0.6, initgoal=0.6, **{"for": 0.3, "if": 0.2, "while": 0.1, "del": 0.7, "fail": 0.02})),
    "C06": (single, dict(alts=2, ngoals=4, ach=6, later=1.2, ev=2, tests=1, test=1, q=1.5, outmaybe=0.3, mainlen=5, len=4,
                         rec=1.5, recafter=0.5, maxcost=200, **{"for": 0.4, "if": 0.4, "while": 0.2, "fail": 0.02})),
    "C07": (single, dict(ngoals=2, ach=1, ev=0.7, q=1, bi=0.5, rules=0, depth=3, add=1, rep=0.7, mainlen=5, len=2, rec=2.5,
                         evalts=1, maxcost=350, **{"for": 4, "if": 4, "while": 3, "del": 1, "fail": 0.03, "q_not": 1})),
    "C08": (multi, dict(mains=3, ngoals=3, ach=2, later=3, ev=1, send=1.2, rec=2, recafter=0.8, mainlen=4, len=3, calls=4, maxcost=100,
                        **{"for": 0.3, "if": 0.3, "while": 0.2, "fail": 0.01, "wait": 0.4})),
    "C09": (waiting, dict(mains=3, ngoals=2, ach=1, later=1.5, ev=2, evdel=0.7, wait=3, rec=1.5, mainlen=4, len=3, send=0,
                          add=1.2, calls=3, alts=1, **{"for": 0.4, "if": 0.3, "while": 0.3, "fail": 0.01})),
    "C10": (multi, dict(ngoals=3, ach=0.7, send=5, rec=1.5, mainlen=5, len=2, annots=0.25, headann=0.5, add=0.7, bev=0.3,
                        alts=2, **{"for": 0.5, "if": 0.4, "while": 0.1, "fail": 0.06})),
    "C11": (multi, dict(mains=2, ngoals=3, ach=4, later=1.5, send=2, unach=6, wait=1, rec=2, mainlen=4, len=4, calls=5,
                        alts=1, **{"for": 0.6, "if": 0.4, "while": 0.4, "fail": 0.01})),
    "C12": (exchanging, dict(n=[1, 2, 2, 2, 3], mains=2, ngoals=3, ach=3, ev=2, evdel=0.7, tests=0.6, alts=3, evalts=2, noctx=0.4, send=1, rec=2,
                             recafter=0.5, add=1, rep=0.6, abolish=0.3, q=1, bi=0.8, q_or=1, q_not=1, annots=0.3, headann=0.3, headconst=0.3, catchall=0.8,
                             mainlen=4, len=3, wait=0.3, calls=3, maxcost=130, **{"for": 1, "if": 1, "while": 0.5, "del": 1, "fail": 0.02})),
    "C13": (teaching, dict(maxcost=90, recafter=0.6, ngoals=2, rec=2, add=2, rep=1, ev=2, evdel=1, abolish=0.6, send=1, bev=0.4, rules=1, initev=0.7,
                            initgoal=0.5, mainlen=5, len=2, wait=0.2, annots=0.15, **{"del": 2, "for": 0.3, "if": 0.3, "while": 0.2, "fail": 0.02})),
    "C18": (single, dict(bi=6, q_act=4, q=1, rec=0.5, recafter=0.6, add=0.4, rep=0.1, abolish=0.05, ev=0.1, evdel=0, ach=0.3,
                         ngoals=1, mainlen=6, evalts=0, **{"for": 2.5, "if": 1.5, "while": 0.1, "del": 0.2, "fail": 0.02})),
    "C20": (multi, dict(n=[1, 2], ngoals=2, fail=2.5, mains=2, ach=2, ev=1.5, send=0.7, rec=2, mainlen=5, len=3, catchall=0.6,
                        qfail=0.5, tests=1, **{"for": 0.7, "if": 0.7, "while": 0.4, "wait": 0.2})),
}


def build(pid, seed):
    kind, prof = P[pid]
    case = kind(prof, seed)
    mix = random.Random(seed * 17 + 3)
    case["texts"] = [rprog(p, None, mix if mix.random() < 0.25 else None) for p in case["progs"]]
    return case
