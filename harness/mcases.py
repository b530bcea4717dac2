"""Small programs for AgentMC.tla.

Directives: @host AGENT TRIGGER TERM   an event the host posts (in this order, at any moment)
            @ticks N                   how often the clock may advance
            @want 1 2 3 / 4 5 [! a]    one possible outcome: what each agent recorded; agents that failed
"""
CASES = {

# two intentions posted one after the other, a third one from inside
"order": r"""
!g(1). !g(2).
+!g(N) <- .rec(N); !!h(N); !s(N); .rec(N + 20).
+!s(N) <- .rec(N + 10).
+!h(N) <- .rec(N + 30).
@want 1 11 21 2 12 22 31 32
""",

# two agents, all interleavings; each has its own beliefs
"apart": r"""
--- a
b(1).
!go.
+!go <- .rec(1); +b(2); .rec(2); -b(1); for (b(X)) { .rec(X + 10) }; +b(3); .rec(3).
--- b
b(5).
!go.
+!go <- +b(6); .rec(1); .abolish(b(_)); .rec(2); ?b(9).
@want 1 2 12 3 / 1 2 ! b
""",

# the first plan that is applicable
"first": r"""
!m.
+!m <- +v(2); !g(1); !g(2); !g(3); !g(4).
+!g(X) : v(X) & X > 2 <- .rec(1, X).
+!g(2) : v(3) <- .rec(2).
+!g(X)[k] <- .rec(3).
+!g(X) : v(X) <- .rec(4, X); +v(X + 1).
+!g(2) <- .rec(5).
+!g(1) : not v(1) <- .rec(6); +v(3).
+!g(3) <- .rec(7).
+!g(_) <- .rec(8).
+v(X) : X > 3 <- .rec(9).
+v(X) <- .rec(10); +v(X + 1); .rec(11).
@want 10 10 9 11 11 6 10 9 11 2 1 1
""",

# return values, nested
"return": r"""
f(1, 2). f(2, 3). f(3, 4).
!main.
+!main <- !plus(1, 2, R); .rec(R); !far(1, Z); .rec(Z); !both(A, B); .rec(A); .rec(B); +done(A).
+!plus(X, Y, Z) <- Z = X + Y.
+!far(X, Z) : f(X, Y) & f(Y, _) <- !far(Y, Z).
+!far(X, X) <- .rec(100).
+!both(X, Y) <- !one(X); Y = X + 1.
+!one(7).
+done(X) <- .rec(X + 200).
@want 3 100 3 7 8 207
""",

# loops whose bodies change what they range over
"loops": r"""
b(1). b(2).
!main.
+!main <- for (b(X)) { +b(X + 2); -b(X); .rec(X) }; .count(b(_), N); .rec(N + 10);
  while (b(X)) { -b(X); .rec(X + 20) }; if (b(_)) { .rec(31) } else { .rec(32) };
  if (not b(_)) { Y = 1 } else { Y = 2 }; .rec(Y).
@want 1 2 12 23 24 32 1
@want 1 2 12 24 23 32 1
@want 2 1 12 23 24 32 1
@want 2 1 12 24 23 32 1
""",

# wait with a deadline, wait for an event, and another intention in between
"wait": r"""
!a. !b. !c.
+!a <- .rec(1); .wait(250); .rec(2).
+!b <- .rec(3); .wait("+e(2)"); .rec(4).
+!c <- .rec(5); +e(1); .rec(6); +e(2); .rec(7).
+e(X) <- .rec(X + 10).
@ticks 3
""",

"timeout": r"""
!a. !b.
+!a <- .rec(1); .wait("+!go", 250); .rec(2); .wait(125); .rec(3).
+!b <- .rec(4); .wait(125); .rec(5); !go; .rec(6).
+!go <- .rec(7).
@ticks 4
""",

# host calls at any moment
"host": r"""
!a.
+!a <- .rec(1); .wait("+p(3)"); .rec(2); -p(X); .rec(3).
+p(X) <- .rec(X + 10).
-p(X) <- .rec(X + 20).
+!b(X) <- .rec(X + 30).
@host a + p(3)
@host a +! b(4)
@host a - p(3)
@want 1 13 34 23
@want 1 2 23 3 13 34
@want 1 2 3 13 34 23
""",

# messages: once to each receiver
"tell": r"""
--- a
!go.
+!go <- .send([b, c, b], tell, n(1)); .rec(1); .send(b, untell, n(1)); .rec(2).
--- b
+n(1)[source(S)] <- .rec(11).
-n(1)[source(a)] <- .rec(12).
--- c
n(1).
!go.
+!go <- .rec(21); -n(1); .rec(22); .broadcast(tell, m(1)); .rec(23).
+n(1) <- .rec(24).
-n(1) <- .rec(25).
@want 1 2 / 11 11 12 / 24 21 25 22 23 24
""",

"achieve": r"""
--- a
!go.
+!go <- .send(b, achieve, g(1)); .rec(1); .send([b, a], achieve, g(2)); .rec(2).
+!g(X)[source(a)] <- .rec(X + 10).
--- b
!go.
+!go <- .rec(21); !sub; .rec(22).
+!sub <- .rec(23).
+!g(X)[source(a)] <- .rec(X + 30).
@want 1 2 12 / 21 23 22 31 32
""",

# unachieve: at any moment of the receiver's activity
"unachieve": r"""
--- a
!go.
+!go <- .rec(1); .send(b, unachieve, g(1)); .rec(2).
--- b
!m(1). !m(2).
+!m(X) <- .rec(X); !g(X); .rec(X + 10).
+!g(X) <- .rec(X + 20); !h(X); .rec(X + 30).
+!h(X) <- .rec(X + 40).
@want 1 2 / 1 11 2 22 42 32 12
@want 1 2 / 1 21 11 2 22 42 32 12
@want 1 2 / 1 21 41 11 2 22 42 32 12
@want 1 2 / 1 21 41 31 11 2 22 42 32 12
""",

# a failing agent
"fail": r"""
--- a
!go. !other.
+!go <- +p(1); .rec(1); ?q(2); .rec(2).
+!other <- .rec(3).
--- b
!go.
+!go <- .rec(11); .send(a, tell, p(2)); .rec(12); .send(none, tell, p(3)); .rec(13).
+p(X) <- .rec(X + 20).
@want 1 / 11 12 ! a b
""",

# a removal leaves open which fact goes
"which": r"""
p(1). p(2). p(3)[k].
!go.
+!go <- -p(X); .rec(X); -+p(X + 5); for (p(Y)) { .rec(Y + 10) }; -p(_)[k]; .count(p(_), N); .rec(N + 30).
+p(X) <- .rec(X + 40).
-p(X) <- .rec(60).
""",

"testgoal": r"""
p(1). p(2).
big(X) :- p(X) & X > 1.
!go.
+!go <- ?big(X); .rec(X); ?t(Y); .rec(Y); ?u(Z); .rec(Z).
+?t(Z) <- .rec(11); Z = 5.
+?u(Z) : p(3) <- .rec(12).
u(9).
@want 2 11 5 9
""",

# one event wakes several intentions, others sleep on
"wakeall": r"""
!w(1). !w(2). !v(3). !x.
+!w(N) <- .wait("+e(_, k)[s(Y)]"); .rec(N).
+!v(N) <- .wait("-e(7, Z)"); .rec(N).
+!x <- .rec(4); +e(1, j)[s(1)]; .rec(5); +e(1, k); .rec(6); +e(7, k)[s(2)]; .rec(7); -e(X, k); .rec(8); -e(7, k); .rec(9).
""",

"waitgoals": r"""
--- a
!w. !v. !u.
+!w <- .wait("+!g(1)"); .rec(1).
+!v <- .wait("+?t(X)", 250); .rec(2).
+!u <- .rec(3); !g(2); .rec(4); ?t(5); .rec(5); !!g(1); .rec(6).
+!g(X) <- .rec(X + 10).
+?t(X) <- .rec(X + 20).
--- b
!go.
+!go <- .rec(31); .send(a, achieve, g(1)); .rec(32).
@ticks 3
""",

"waitsub": r"""
--- a
!m(1). !m(2).
+!m(X) <- .rec(X); !s(X); .rec(X + 10).
+!s(1) <- .wait("+go", 375); .rec(21).
+!s(2) <- .rec(22); .wait(125); .rec(23).
+go <- .rec(31).
--- b
!t.
+!t <- .wait(250); .send([a], tell, go); .rec(41).
@ticks 4
""",

# messages to oneself, to a list with the sender in it; a broadcast is for the others
"self": r"""
--- a
!go.
+!go <- .send([a, b], tell, p(X, X)[k]); .rec(1).
--- b
p(0).
!go.
+!go <- .send([b, a, b], tell, p(1)); .rec(1); .broadcast(untell, p(1)); .rec(2); .broadcast(achieve, g(Y, Y)); .rec(3); .send(b, untell, p(_)); .rec(4); .count(p(_), N); .rec(N).
+p(X)[source(b)] <- .rec(X + 10).
-p(X)[source(b)] <- .rec(20).
--- c
p(1)[source(b)]. p(1)[source(d), source(b)].
+!g(1, 2) <- .rec(30).
+!g(X, 3)[source(b)] <- .rec(X).
-p(1)[source(b)] <- .rec(31).
""",

"race": r"""
--- a
!go.
+!go <- .send(c, tell, t(1)); .rec(1); .send(c, achieve, put(1)); .rec(2).
--- b
!go.
+!go <- .send(c, achieve, put(2)); .rec(1); .send(c, untell, t(1)); .rec(2).
--- c
+!put(X) : t(1) <- .rec(X); -+v(X).
+!put(X) <- .rec(X + 10); -+v(X).
+t(X) <- .rec(20).
+v(X)[source(self)] <- .rec(X + 30).
+v(X) <- .rec(X + 40).
""",

# unachieve while the goal is on top, below, twice, or waiting
"unachieve2": r"""
--- a
!go.
+!go <- .rec(1); .send([b, a], unachieve, g(X)); .rec(2); .send(b, unachieve, h(2)); .rec(3).
--- b
!m(1). !m(2).
+!m(X) <- !g(X); .rec(X + 10).
+!g(1) <- .rec(21); !g(3); .rec(31).
+!g(2) <- .rec(22); !h(2); .rec(32).
+!g(3) <- .rec(23); .wait(125); .rec(33).
+!h(X) <- .rec(40); .wait("-!h(Z)"); .rec(41).
@ticks 2
""",

"unself": r"""
!m(1). !m(2).
+!m(X) <- .rec(X); !g(X); .rec(X + 10).
+!g(1) <- .send(a, unachieve, g(2)); .rec(21); .wait("+done"); .rec(22).
+!g(2) <- .rec(31); .wait("+k"); .rec(32); +done; .rec(33); .send(a, unachieve, g(Z)); .rec(34).
@host a + k
@host a -! m(_)
""",

# failures below other goals, while others wait
"fail2": r"""
--- a
!m. !w.
+!m <- .rec(1); !s(1); .rec(2).
+!s(X) <- +p(X); .rec(3); for (p(Y)) { .rec(4); !none(Y) }; .rec(5).
+!w <- .rec(6).
+p(X) <- .rec(7); .wait(125); .rec(8).
--- b
!go.
+!go <- .send([b, a], achieve, none(1)); .rec(1).
+!none(X) <- .rec(2).
--- c
!go.
+!go <- .wait(250); .rec(1); +q; .rec(2); X = Y + 1; .rec(3).
+q <- .rec(4).
@ticks 3
""",

"queue": r"""
--- a
!p(1). !p(2).
+!p(X) : X < 5 <- !!p(X + 2); .rec(X); +b(X); .rec(X + 10).
+!p(X) <- .rec(X + 20).
+b(X) : X > 2 <- !!c(X); .rec(30).
+!c(X) <- .rec(X + 40).
--- b
!p(1).
+!p(X) <- .rec(1); .send(a, achieve, p(6)); .rec(2); .send(a, achieve, c(1)); .rec(3).
""",

"updates": r"""
p(1). p(1)[k]. p(2). q(1).
!go. !too.
+!go <- +p(1); .rec(1); -p(1)[k]; .rec(2); .abolish(p(1)); .rec(3); -+q(2); .rec(4); -q(5); .rec(5); +p(X0).
+!too <- .rec(6).
+p(X) <- .rec(X + 10).
-p(X) <- .rec(20).
-q(X) <- .rec(21).
+q(X) <- .rec(X + 30).
""",

"branches": r"""
v(1). v(2). v(3).
!go.
+!go <- if (v(X) & X > 1) { .rec(X); +w(X) } else { .rec(9) };
  for (v(Y) & not w(Y)) { -v(Y); .rec(Y + 10); if (Y > 2) { +w(Y) } };
  while (w(Z) & not u(Z)) { +u(Z); .rec(Z + 20); !g(Z, R); .rec(R) };
  if (not v(1) | w(9)) { .rec(7) }.
+!g(Z, R) : Z > 2 <- R = 30.
+!g(Z, 40).
""",

# the same program several times, and messages between the instances
"twins": r"""
--- a
b(1).
!go.
+!go <- +b(2); .rec(1); .broadcast(tell, b(3)); .rec(2); -b(X)[source(b)]; .rec(3).
+b(X)[source(S)] <- .rec(X + 10).
--- b
b(1).
!go.
+!go <- +b(2); .rec(1); .broadcast(tell, b(3)); .rec(2); -b(X)[source(b)]; .rec(3).
+b(X)[source(S)] <- .rec(X + 10).
""",
}

OF = {
    "C04": ["apart", "which", "updates", "host", "loops"],
    "C05": ["first", "testgoal", "race", "queue"],
    "C06": ["return", "testgoal", "which", "waitsub", "fail2"],
    "C07": ["loops", "branches", "apart"],
    "C08": ["order", "queue", "waitsub", "wakeall", "host", "race"],
    "C09": ["wait", "timeout", "wakeall", "waitgoals", "waitsub", "host"],
    "C10": ["tell", "achieve", "self", "race", "twins", "fail"],
    "C11": ["unachieve", "unachieve2", "unself"],
    "C13": ["apart", "twins", "race"],
    "C20": ["fail", "fail2", "apart", "updates"],
}


def load(name):
    import random, scen
    host, want, rest = [], [], []
    ticks = 0
    for line in CASES[name].split("\n"):
        w = line.split(None, 1)
        if w and w[0] == "@host":
            a, t, x = w[1].split(None, 2)
            host.append([a, t, scen.Parser(x).atomic()])
        elif w and w[0] == "@ticks":
            ticks = int(w[1])
        elif w and w[0] == "@want":
            s, _, d = w[1].partition("!")
            want.append({"seen": [[int(x) for x in q.split()] for q in s.split("/")], "dead": d.split()})
        else:
            rest.append(line)
    names, progs, _, _ = scen.read("\n".join(rest), random.Random(0))
    return {"names": names, "progs": progs, "host": host, "ticks": ticks, "want": want}


def script(case, path):
    """A schedule printed by TLC as a script for the worker."""
    s = [["build", i, n + ".asl"] for i, n in enumerate(case["names"])]
    nh = 0
    for x in path:
        if x == "#":
            a, t, term = case["host"][nh]
            nh += 1
            s.append(["call", case["names"].index(a), t, term])
        elif x == "+":
            s.append(["tick", 1])
        else:
            s.append(["turn", case["names"].index(x)])
    return s + [["settle", i] for i in range(len(case["names"]))] + [["run"], ["fin"]]
