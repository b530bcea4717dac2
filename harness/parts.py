"""The parts of each property's check.

A part is part(pid, tier, seed, workdir, deadline) -> dict with states, transitions,
validated, samples, info, violations (each with what, case, ...).
"""
import os, re, json, time, random, multiprocessing
from collections import Counter
import core, mcases, profiles, scen, tables
from terms import spec_prog, rprog, rt

ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "the harness encodes terms, beliefs and events faithfully (it decides nothing)",
    "traces are random samples of programs and schedules; within one trace every resolution of the "
    "nondeterminism is explored",
    "clock and sleep of the environment are replaced by a virtual clock",
]

KINDS = {"N": "agent built", "NE": "building failed", "S": "step", "R": "recorded action (arguments and beliefs)",
         "Z": "step reported nothing to do", "T": "clock", "P": "sleep", "C": "external event",
         "CE": "external event failed", "E": "error raised", "F": "final beliefs", "Q": "run returned",
         "X": "crash or no end", "D": "fact stored twice"}


def jobs_of(cases):
    return [{k: c[k] for k in ("texts", "script", "opts", "kind") if k in c} for c in cases]


def show(e):
    if e[0] == "R":
        return "R %s (%s) with {%s}" % (e[1], ", ".join(rt2(x) for x in e[2]), ", ".join(sorted(rt2(x) for x in e[3])))
    if e[0] == "F":
        return "F %s {%s}" % (e[1], ", ".join(sorted(rt2(x) for x in e[2])))
    return str(e)


def rt2(t):
    try:
        return rt(t)
    except Exception:
        return str(t)


def _gen(a):
    fn, pid, s = a
    return fn(pid, s)


def generate(fn, pid, seeds):
    if len(seeds) < 64:
        return [fn(pid, s) for s in seeds]
    with multiprocessing.get_context("fork").Pool(core.NPROC) as p:
        return p.map(_gen, [(fn, pid, s) for s in seeds], chunksize=16)


def judge(cases, work, deadline, label, soft=90):
    """Runs the cases on the interpreter and has TLC judge the recorded traces."""
    os.makedirs(work, exist_ok=True)
    res = core.run_workers(jobs_of(cases), work, timeout=max(60, deadline - time.time()))
    for i, r in enumerate(res):
        if r.get("harness") and r["harness"] != "abort":
            raise core.Machinery("harness: " + r["harness"])
    slow = [i for i, r in enumerate(res) if any(e[0] == "X" and e[1] == "timeout" for e in r["ev"])]
    if slow:
        # once more, with little else going on: the machine may have been busy
        w = os.path.join(work, "again")
        os.makedirs(w, exist_ok=True)
        for i in slow[3:]:
            res[i] = {"ev": [], "skipped": True}
        again = [dict(jobs_of([cases[i]])[0], alarm=60) for i in slow[:3]]
        for i, r in zip(slow, core.run_workers(again, w, timeout=300)):
            res[i] = r
    lv, dist, gen = core.validate_traces([[spec_prog(p) for p in c["progs"]] for c in cases],
                                         [r["ev"] for r in res], work, deadline=deadline, soft=soft,
                                         means=[c.get("means", []) for c in cases])
    out = {"states": dist, "transitions": gen, "violations": [], "samples": []}
    n = Counter()
    events = Counter()
    for i, (c, r, v) in enumerate(zip(cases, res, lv)):
        if r.get("skipped"):
            v = lv[i] = core.SKIPPED
        for e in r["ev"]:
            events[e[0]] += 1
        if v == core.ACCEPT + 1:
            n["accepted"] += 1
        elif v == core.ACCEPT:
            n["outside the specified domain"] += 1
        elif v == core.SKIPPED:
            n["not checked, time up"] += 1
        else:
            n["rejected"] += 1
            pos = v
            e = r["ev"][pos - 1] if 0 < pos <= len(r["ev"]) else ["?"]
            out["violations"].append({
                "part": label, "seed": c.get("seed"),
                "what": "event %d of the execution is no behaviour of the specification: %s: %s"
                        % (pos, KINDS.get(e[0], "?"), show(e)[:300]) if pos > 0 else
                        "the execution contains values outside the specification",
                "position": pos, "programs": c["texts"], "script": c["script"], "opts": c.get("opts"),
                "events": [show(x) for x in r["ev"][max(0, pos - 12):pos + 1]],
                "log": r.get("log", [])[:5], "raised": r.get("raised"), "case": c})
    out["violations"].sort(key=lambda v: (sum(len(t) for t in v["programs"]) + 20 * abs(v["position"])))
    out["validated"] = n["accepted"]
    acc = [i for i, v in enumerate(lv) if v == core.ACCEPT + 1]
    for i in acc[:2]:
        out["samples"].append({"programs": cases[i]["texts"], "script": cases[i]["script"],
                               "events": [show(e) for e in res[i]["ev"][:12]]})
    out["info"] = {"traces": dict(n), "events": {KINDS.get(k, k): v for k, v in events.items()},
                   "states": dist, "transitions": gen}
    if n["not checked, time up"] > len(cases) // 2 and not out["violations"]:
        raise core.Machinery("time up: %r" % (n,))
    return out


def traces(nquick, nscen=0, name=None, fn=None, factor=10):
    """Trace validation of random programs and of variations of scenarios."""
    def make(pid, seed, n, m):
        seeds = [seed * 1000003 + i for i in range(n)]
        cases = generate(fn or profiles.build, name or pid, seeds)
        more = [seed * 500009 + i for i in range(m)]
        cases += generate(scen.build, name or pid, more)
        for c, s in zip(cases, seeds + more):
            c["seed"] = s
        return cases

    def part(pid, tier, seed, work, deadline):
        if tier == "quick":
            return judge(make(pid, seed, nquick, nscen), work, deadline, part.label, soft=40)
        # in rounds, until the time is up
        tot = None
        for k in range(factor):
            if k and time.time() > deadline - 60:
                break
            r = judge(make(pid, seed + 7919 * k, nquick, nscen), os.path.join(work, "r%d" % k), deadline, part.label)
            tot = r if tot is None else merge(tot, r)
            if tot["violations"]:
                break
        return tot
    part.label = "traces of random programs and scenarios (%s)" % (name or "own profile")
    part.__name__ = "traces"
    return part


def judge_rows(kind, rows, work, deadline, label, module):
    """Applies the implementation to the rows and has TLC judge the outcomes."""
    os.makedirs(work, exist_ok=True)
    given = json.dumps(rows)
    res = core.run_workers(rows, work, timeout=max(60, deadline - time.time()), script="tabworker.py")
    given = json.loads(given)
    slow = [i for i, r in enumerate(res) if r.get("k") == "x" and r.get("what") == "no end"]
    if slow:
        # once more, with little else going on: the machine may have been busy
        w = os.path.join(work, "again")
        os.makedirs(w, exist_ok=True)
        for i in slow[3:]:
            res[i] = {"k": "x", "what": "skipped"}
        again = [dict(given[i], alarm=60) for i in slow[:3]]
        for i, r in zip(slow, core.run_workers(again, w, timeout=300, script="tabworker.py")):
            res[i] = r
    lv, dist, gen = core.validate_rows(res, work, module, deadline=deadline)
    lv = [None if r.get("k") == "x" and r.get("what") == "skipped" else v for r, v in zip(res, lv)]
    n = Counter("agrees" if v == "ok" else "outside the specified domain" if v == "und" else
                "not checked, time up" if v is None else "rejected" for v in lv)
    out = {"states": dist, "transitions": gen, "violations": [], "samples": [], "validated": n["agrees"]}
    for g, r, v in zip(given, res, lv):
        if v is None or v in ("ok", "und"):
            continue
        out["violations"].append({"part": label, "what": "%s: %s" % (v, tables.show(r)), "kind": kind,
                                  "module": module, "row": g, "outcome": r})
    out["violations"].sort(key=lambda x: len(json.dumps(x["outcome"])))
    for r, v in zip(res, lv):
        if v == "ok" and len(out["samples"]) < 3:
            out["samples"].append(tables.show(r))
    out["info"] = {"rows": dict(n), "states": dist, "transitions": gen}
    if n["not checked, time up"] > len(rows) // 2 and not out["violations"]:
        raise core.Machinery("time up: %r" % (n,))
    return out


def table(kind, nquick, nthorough, rounds=10):
    """Conformance of a function: random (thorough: and enumerated) inputs."""
    def part(pid, tier, seed, work, deadline):
        make = getattr(tables, kind + "_rows")
        module = tables.MODULE.get(kind, "TermTable.tla")
        if tier == "quick":
            return judge_rows(kind, make(seed, nquick, False), work, deadline, part.label, module)
        tot = None
        for k in range(rounds):
            if k and time.time() > deadline - 60:
                break
            r = judge_rows(kind, make(seed + 1000 * k, nthorough // rounds, k == 0), os.path.join(work, "r%d" % k),
                           deadline, part.label, module)
            tot = r if tot is None else merge(tot, r)
            if tot["violations"]:
                break
        return tot
    part.label = "outcomes of the implementation against the specification (%s)" % kind
    return part


def merge(tot, r):
    for key in ("states", "transitions", "validated"):
        tot[key] += r[key]
    tot["violations"] += r["violations"]
    for key, val in r["info"].items():
        if isinstance(val, dict):
            tot["info"][key] = dict(Counter(tot["info"].get(key, {})) + Counter(val))
        else:
            tot["info"][key] = tot["info"].get(key, 0) + val
    return tot


def mc(module, quick, thorough):
    """Model checking of the specification itself, exhaustive within the configuration."""
    def part(pid, tier, seed, work, deadline):
        os.makedirs(work, exist_ok=True)
        cfg = quick if tier == "quick" else thorough
        p, out = core.tlc(module, cfg, {}, work, "mc", workers=str(core.NPROC), heap="6g")
        try:
            p.wait(timeout=max(30, deadline - time.time()))
        except Exception:
            p.kill()
            raise core.Machinery("model checking of %s: time up" % module)
        out.seek(0)
        text = out.read()
        out.close()
        if p.returncode != 0 or "No error has been found" not in text:
            raise core.Machinery("model checking of %s failed:\n%s" % (module, text[-3000:]))
        g, d = core.parse_stats(text)
        return {"states": d, "transitions": g, "validated": 0, "samples": [], "violations": [],
                "info": {"model": module, "configuration": cfg, "states": d, "transitions": g}}
    part.label = "model checking of the specification (%s)" % module
    return part


def machine(nquick, nthorough):
    """Model checking of the agent machine on small programs, and the schedules that lead to its
    states replayed on the implementation."""
    def part(pid, tier, seed, work, deadline):
        names = mcases.OF[pid] if tier == "quick" else list(mcases.CASES)
        os.makedirs(work, exist_ok=True)
        loaded = [mcases.load(n) for n in names]
        files = []
        for n, c in zip(names, loaded):
            f = os.path.join(work, "mc_%s.json" % n)
            with open(f, "w") as fh:
                json.dump({"cases": [dict(c, progs=[spec_prog(p) for p in c["progs"]])]}, fh)
            files.append(f)
        res = core.run_tlc_shards("AgentMC.tla", "AgentMC.cfg", files, work, timeout=600, deadline=deadline)
        r = random.Random(seed)
        cases, per = [], {}
        gen = dist = 0
        for n, c, x in zip(names, loaded, res):
            if x is None:
                raise core.Machinery("model checking of %s: time up" % n)
            text, g, d = x
            if "No error has been found" not in text:
                raise core.Machinery("model checking of %s failed:\n%s" % (n, text[-3000:]))
            gen += g
            dist += d
            paths = sorted({tuple(m.split()[1:]) for m in re.findall(r'"PATH ([^"]*)"', text)})
            # those that are not the beginning of another one
            paths = [q for q, nx in zip(paths, paths[1:] + [()]) if nx[:len(q)] != q]
            k = max(1, (nquick if tier == "quick" else nthorough) // len(names))
            if len(paths) > k:
                paths = r.sample(paths, k)
            per[n] = {"states": d, "transitions": g, "schedules replayed": len(paths)}
            for q in paths:
                cases.append({"progs": c["progs"], "script": mcases.script(c, q), "opts": {},
                              "texts": [rprog(p) for p in c["progs"]]})
        out = judge(cases, work, deadline, part.label, soft=60)
        out["info"]["programs"] = per
        out["states"] += dist
        out["transitions"] += gen
        return out
    part.label = "model checking of the agent machine, schedules replayed (AgentMC.tla)"
    part.__name__ = "machine"
    return part


def bodies(nquick, nthorough):
    """Plan bodies from BodyMC.tla, where the machine was compared with their meaning, run on the
    implementation."""
    def part(pid, tier, seed, work, deadline):
        os.makedirs(work, exist_ok=True)
        r = random.Random(seed)
        gen = dist = 0
        cases = []
        for cfg in ["BodyMC.cfg"] if tier == "quick" else ["BodyMCdeep.cfg", "BodyMCwide.cfg"]:
            p, out = core.tlc("BodyMC.tla", cfg, {}, work, cfg[:-4], workers=str(core.NPROC), heap="6g")
            try:
                p.wait(timeout=max(30, deadline - time.time()))
            except Exception:
                p.kill()
                raise core.Machinery("model checking of BodyMC.tla: time up")
            out.seek(0)
            text = out.read()
            out.close()
            if p.returncode != 0 or "No error has been found" not in text:
                raise core.Machinery("model checking of BodyMC.tla failed:\n" + text[-3000:])
            g, d = core.parse_stats(text)
            gen += g
            dist += d
            plans = None
            found = []
            for line in text.split("\n"):
                if line.startswith('"PLANS '):
                    plans = json.loads(json.loads(line)[6:])
                elif line.startswith('"BODY '):
                    found.append(line)
            found.sort()
            n = nquick if tier == "quick" else nthorough // 2
            for line in r.sample(found, min(n, len(found))):
                base, body = json.loads(json.loads(line)[5:])
                # facts that start a plan first
                base.sort(key=lambda b: (b[1] != "q", b))
                x = {"beliefs": base, "rules": [], "goals": [["f", "go", [], []]],
                     "plans": [{"trig": "+!", "head": ["f", "go", [], []], "ctx": ["true"], "body": body,
                                "label": ""}] + [dict(q, label="") for q in plans]}
                cases.append({"progs": [x], "texts": [rprog(x)], "opts": {},
                              "script": [["build", 0, "a.asl"], ["run"], ["fin"]]})
        o = judge(cases, work, deadline, part.label, soft=60)
        o["info"]["model"] = {"module": "BodyMC.tla", "states": dist, "transitions": gen}
        o["states"] += dist
        o["transitions"] += gen
        return o
    part.label = "meaning of bodies against the machine (BodyMC.tla), bodies run"
    part.__name__ = "bodies"
    return part


PARTS = {
    "C01": [mc("UniMC.tla", "UniMC.cfg", "UniMCdeep.cfg"), table("uni", 16000, 400000)],
    "C02": [mc("UniMC.tla", "UniMC.cfg", "UniMCdeep.cfg"), table("ann", 24000, 400000)],
    "C14": [table("expr", 40000, 600000)],
    "C15": [table("parse", 14000, 200000)],
    "C16": [mc("LexMC.tla", "LexMC.cfg", "LexMCdeep.cfg"), table("lex", 16000, 160000)],
    "C17": [mc("IncMC.tla", "IncMC.cfg", "IncMCdeep.cfg"), table("inc", 8000, 120000)],
    "C22": [table("print", 14000, 120000), table("repr", 10000, 120000)],
    "C21": [table("cmp", 10000, 200000), table("sort", 1500, 20000), table("set", 3000, 60000)],
    "C03": [mc("SolveMC.tla", "SolveMC.cfg", "SolveMCdeep.cfg"), traces(700, 220)],
    "C04": [machine(300, 1500), traces(900, 400)],
    "C05": [machine(300, 1500), traces(600, 400)],
    "C06": [machine(300, 1500), bodies(300, 2000), traces(700, 400)],
    "C07": [machine(300, 1500), bodies(300, 2000), traces(500, 400)],
    "C08": [machine(300, 1500), traces(160, 300)],
    "C09": [machine(300, 1500), traces(250, 300)],
    "C10": [machine(300, 1500), traces(300, 300)],
    "C11": [machine(300, 1500), traces(250, 300)],
    "C12": [traces(150, 400)],
    "C13": [machine(300, 1500), traces(150, 150)],
    "C18": [table("act", 30000, 400000), traces(700, 400)],
    "C19": [mc("RegMC.tla", "RegMC.cfg", "RegMCdeep.cfg"), table("host", 24000, 400000)],
    "C20": [machine(300, 1500), traces(700, 400), table("report", 5000, 60000)],
}


def replay(v, work):
    """Runs a saved case again; exit status 1 if it is still rejected."""
    if "row" in v:
        r = judge_rows(v["kind"], [v["row"]], work, time.time() + 600, "replay", v["module"])
        for x in r["violations"]:
            print(x["what"])
    else:
        r = judge([v["case"]], work, time.time() + 600, "replay")
        for x in r["violations"]:
            print(x["what"])
            for e in x["events"]:
                print("   ", e)
    print("rejected" if r["violations"] else "accepted")
    return 1 if r["violations"] else 0


ROWS = ("TLA+ definition of the function; TLC judges recorded outcomes of the real implementation against it "
        "(and model checks the definition against its declarative meaning)")
ROWNOTE = ("Every recorded application of the implementation was judged by TLC against the TLA+ definition. Inputs are "
           "enumerated small ones and random larger ones, not all; trusts TLC and the encoding of terms.")
TECH = {p: (ROWS, ROWNOTE) for p in ("C01", "C02", "C14", "C15", "C16", "C17", "C19", "C21", "C22")}
NOT_APPLICABLE = {}
