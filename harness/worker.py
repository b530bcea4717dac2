"""Runs cases on the real interpreter and records what can be observed.

usage: worker.py JOBS.json OUT.json          (one process, one hash seed)

Only the public interface is used: parsing and building agents from source,
Environment / Agent subclasses, host actions, agent.beliefs, unify & co.
"""
import sys, os, json, signal, io, logging
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import time as _time
_real_sleep = _time.sleep
_CUR = {"env": None}


def _sleep(d):
    env = _CUR["env"]
    if env is None:
        return _real_sleep(d)
    return env.virtual_sleep(d)


_time.sleep = _sleep

import agentspeak
import agentspeak.runtime
import agentspeak.stdlib
import agentspeak.ext_stdlib

TICK = 0.125


class Abort(BaseException):
    pass


def _alarm(signum, frame):
    raise Abort("timeout")


signal.signal(signal.SIGALRM, _alarm)
sys.setrecursionlimit(3000)


class LogTap(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        loc = getattr(record, "loc", None)
        try:
            msg = record.getMessage()
        except Exception as e:      # a log message that cannot be formatted
            msg = "?%r" % (e,)
        self.records.append((record.levelno, msg, tuple(loc[:4]) if loc else None))


TAP = LogTap()
for n in list(logging.Logger.manager.loggerDict):
    if n.startswith("agentspeak"):
        lg = logging.getLogger(n)
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.addHandler(TAP)
        lg.propagate = False


def enc_num(x):
    try:
        f = Fraction(x)
    except (ValueError, OverflowError, TypeError):
        return ["other", repr(x)]
    if f.denominator > 16384 or abs(f.numerator) > 30000:
        return ["other", repr(x)]
    return ["n", f.numerator, f.denominator]


def enc(t, memo, depth=0):
    if depth > 60:
        return ["other", "too deep"]
    if isinstance(t, bool):
        return ["b", t]
    if agentspeak.is_number(t):
        return enc_num(t)
    if isinstance(t, str):
        return ["s", t]
    if isinstance(t, tuple):
        return ["l", [enc(x, memo, depth + 1) for x in t]]
    if isinstance(t, agentspeak.LinkedList):
        h = enc(t.head, memo, depth + 1)
        r = enc(t.tail, memo, depth + 1)
        return ["l", [h] + r[1]] if r[0] == "l" else ["c", h, r]
    if isinstance(t, agentspeak.Wildcard):
        return ["w"]
    if isinstance(t, agentspeak.Var):
        if t not in memo:
            memo[t] = len(memo) + 1
        return ["v", memo[t]]
    if isinstance(t, agentspeak.Literal):
        return ["f", t.functor, [enc(x, memo, depth + 1) for x in t.args],
                [enc(x, memo, depth + 1) for x in t.annots]]
    return ["other", repr(t)[:80]]


def dec(t, variables, wildcards=None):
    """JSON term -> real term."""
    k = t[0]
    if k == "n":
        return t[1] if t[2] == 1 else t[1] / t[2]
    if k in ("s", "b"):
        return t[1]
    if k == "w":
        return agentspeak.Wildcard()
    if k == "v":
        if t[1] not in variables:
            variables[t[1]] = agentspeak.Var()
        return variables[t[1]]
    if k == "f":
        return agentspeak.Literal(t[1], [dec(x, variables) for x in t[2]],
                                  [dec(x, variables) for x in t[3]])
    if k == "l":
        return tuple(dec(x, variables) for x in t[1])
    if k == "c":
        return agentspeak.LinkedList(dec(t[1], variables), dec(t[2], variables))
    if k == "u":
        return agentspeak.UnaryExpr(UNOPS[t[1]], dec(t[2], variables))
    if k == "e":
        return agentspeak.BinaryExpr(BINOPS[t[1]], dec(t[2], variables), dec(t[3], variables))
    raise ValueError(t)


UNOPS = {o.value.lexeme: o.value for o in agentspeak.UnaryOp}
BINOPS = {o.value.lexeme: o.value for o in agentspeak.BinaryOp}

TRIG = {
    "+": (agentspeak.Trigger.addition, agentspeak.GoalType.belief),
    "-": (agentspeak.Trigger.removal, agentspeak.GoalType.belief),
    "+!": (agentspeak.Trigger.addition, agentspeak.GoalType.achievement),
    "-!": (agentspeak.Trigger.removal, agentspeak.GoalType.achievement),
    "+?": (agentspeak.Trigger.addition, agentspeak.GoalType.test),
}


class Env(agentspeak.runtime.Environment):
    def __init__(self, ev, opts):
        agentspeak.runtime.Environment.__init__(self)
        self.ev = ev
        self.vt = opts.get("t0", 0)
        self.race = opts.get("race", 0)
        self.over = opts.get("over", 1)
        self.steps = 0
        self.maxsteps = opts.get("maxsteps", 6000)
        self.sleeps = 0
        self.depth = 0
        self.dead = set()

    def time(self):
        if self.race and self.depth == 0:
            # between steps the clock does not stand still
            self.vt += self.race
            self.ev.append(["T", self.vt])
        return self.vt * TICK

    def virtual_sleep(self, d):
        if d != d or d < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps += 1
        if self.sleeps > 400:
            raise Abort("sleeps")
        target = self.vt + d / TICK
        it = int(target) if target == int(target) else int(target) + 1
        self.ev.append(["P", it])
        self.vt = it + self.over
        self.ev.append(["T", self.vt])

    def in_step(self, agent):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Abort("steps")
        last = self.ev[-1] if self.ev else None
        if last and last[0] == "S" and last[1] == agent.name:
            last[2] += 1
        else:
            self.ev.append(["S", agent.name, 1])
        self.depth += 1


class Agent(agentspeak.runtime.Agent):
    def step(self):
        env = self.env
        env.in_step(self)
        try:
            r = agentspeak.runtime.Agent.step(self)
        except Abort:
            raise
        except Exception as e:
            env.ev.append(["E", self.name])
            env.dead.add(self.name)
            env.last_exc = e
            raise
        finally:
            env.depth -= 1
        if not r:
            env.ev.append(["Z", self.name])
        return r


def beliefs_of(agent):
    out = []
    for group in list(agent.beliefs.values()):
        for b in list(group):
            out.append(enc(b, {}))
    return out


def make_actions(env_ref, base):
    actions = agentspeak.Actions(base)

    @actions.add(".rec")
    def _rec(agent, term, intention):
        memo = {}
        args = [agentspeak.freeze(a, intention.scope, memo) for a in term.args]
        names = {}
        agent.env.ev.append(["R", agent.name, [enc(a, names) for a in args], beliefs_of(agent)])
        yield

    return actions


def source(name, text):
    return agentspeak.StringSource(name, text)


def run_case(case):
    ev = []
    opts = case.get("opts", {})
    env = Env(ev, opts)
    _CUR["env"] = env
    actions = make_actions(env, agentspeak.ext_stdlib.actions)
    agents = []
    TAP.records = []
    raised = []
    skip = False
    env.last_exc = None

    def trim():
        # a build that failed leaves no R events behind: see spec
        pass

    try:
        signal.alarm(case.get("alarm", 10))
        if env.vt:
            ev.append(["T", env.vt])
        for cmd in case["script"]:
            k = cmd[0]
            if k == "build":
                mark = len(ev)
                try:
                    a = env.build_agent(source(cmd[2], case["texts"][cmd[1]]), actions, agent_cls=Agent)
                except Abort:
                    raise
                except Exception as e:
                    del ev[mark:]
                    raised.append(type(e).__name__)
                    ev.append(["NE", cmd[1] + 1])
                    agents.append(None)
                else:
                    ev.insert(mark, ["N", a.name, cmd[1] + 1])
                    agents.append(a)
            elif k == "builds":
                mark = len(ev)
                try:
                    if len(cmd) > 4 and cmd[4] is not None:
                        l = env.build_agents(source(cmd[2], case["texts"][cmd[1]]), cmd[3], actions,
                                             agent_cls=Agent, name=cmd[4])
                    else:
                        l = env.build_agents(source(cmd[2], case["texts"][cmd[1]]), cmd[3], actions,
                                             agent_cls=Agent)
                except Abort:
                    raise
                except Exception as e:
                    del ev[mark:]
                    raised.append(type(e).__name__)
                    ev.append(["NE", cmd[1] + 1])
                else:
                    rest = ev[mark:]
                    del ev[mark:]
                    # building the instances one after the other; host actions called meanwhile
                    # are attributed to the instance that called them
                    for a in l:
                        ev.append(["N", a.name, cmd[1] + 1])
                        ev.extend(e for e in rest if e[1] == a.name)
                        agents.append(a)
            elif k in ("step", "settle"):
                a = agents[cmd[1] % len(agents)] if agents else None
                if a is None or a.name in env.dead:
                    continue
                try:
                    for _ in range(cmd[2] if k == "step" else 5000):
                        if not a.step():
                            break
                except Abort:
                    raise
                except Exception as e:
                    raised.append(type(e).__name__)
            elif k == "turn":
                # until it has recorded something, is idle, or fails
                a = agents[cmd[1] % len(agents)] if agents else None
                if a is None or a.name in env.dead:
                    continue
                mark = len(ev)
                try:
                    for _ in range(500):
                        if not a.step() or any(e[0] == "R" for e in ev[mark:]):
                            break
                except Abort:
                    raise
                except Exception as e:
                    raised.append(type(e).__name__)
            elif k in ("run", "runagent", "agentrun"):
                if k != "run" and (not agents or agents[cmd[1] % len(agents)] is None):
                    continue
                if env.dead:
                    # the host goes on with the other agents by hand
                    again = True
                    while again:
                        again = False
                        for a in list(env.agents.values()):
                            if a.name in env.dead:
                                continue
                            try:
                                if a.step():
                                    again = True
                            except Abort:
                                raise
                            except Exception as e:
                                raised.append(type(e).__name__)
                    continue
                try:
                    if k == "run":
                        env.run()
                        ev.append(["Q"])
                    elif k == "runagent":
                        env.run_agent(agents[cmd[1] % len(agents)])
                    else:
                        agents[cmd[1] % len(agents)].run()
                except Abort:
                    raise
                except Exception as e:
                    raised.append(type(e).__name__)
                    if not (ev and ev[-1][0] == "E"):
                        ev.append(["X", "run raised %r" % (e,)])
            elif k == "call":
                a = agents[cmd[1] % len(agents)] if agents else None
                if a is None or a.name in env.dead:
                    continue
                tr, gt = TRIG[cmd[2]]
                mark = len(ev)
                try:
                    ok = a.call(tr, gt, dec(cmd[3], {}), agentspeak.runtime.Intention())
                except Abort:
                    raise
                except Exception as e:
                    ev.insert(mark, ["CE", a.name, cmd[2], cmd[3]])
                    raised.append(type(e).__name__)
                else:
                    ev.insert(mark, ["CE" if ok is False else "C", a.name, cmd[2], cmd[3]])
            elif k == "tick":
                env.vt += cmd[1]
                ev.append(["T", env.vt])
            elif k == "fin":
                for a in env.agents.values():
                    ev.append(["F", a.name, beliefs_of(a)])
            else:
                raise ValueError(cmd)
    except Abort as e:
        # changed programs need not end: what was seen so far counts
        if str(e) == "timeout" and opts.get("rec"):
            skip = True
        elif str(e) == "timeout" or not opts.get("trunc"):
            ev.append(["X", str(e)])
    finally:
        signal.alarm(0)
        _CUR["env"] = None
    if opts.get("rec") and "RecursionError" in raised:
        skip = True
    if skip:
        # rules that recurse without end are outside the specification
        ev = []
    return {"ev": ev, "raised": raised,
            "log": [[lv, m[:200], list(loc) if loc else None] for lv, m, loc in TAP.records[:50]]}


def main():
    jobs = json.load(open(sys.argv[1]))
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    handlers = {"prog": run_case}
    try:
        import workers_extra
        handlers.update(workers_extra.HANDLERS)
    except ImportError:
        pass
    out = []
    slow = 0
    for job in jobs:
        if slow >= 3:           # something hangs: three are enough to show it
            out.append({"ev": [], "skipped": True})
            continue
        h = handlers[job.get("kind", "prog")]
        try:
            out.append(h(job))
            slow += any(e[0] == "X" and e[1] == "timeout" for e in out[-1]["ev"])
        except Abort as e:
            out.append({"ev": [["X", str(e)]], "harness": "abort"})
        except BaseException as e:
            import traceback
            out.append({"ev": [["X", "harness"]], "harness": traceback.format_exc()})
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
