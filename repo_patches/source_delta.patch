From 5ac0abb77cd1b1ae45b6f63e5d1fe0962af86b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 01/33] fix: matching a literal with a variable undoes only its
 own binding

The choice point was never pushed, so backtracking into the match unbound
everything on the trail.
---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..e19d1a4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -631,6 +631,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From 8fa872bb86462615dda282867c4a5b14b93b62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 02/33] fix: match annotations by backtracking, not greedily

The verdict depended on the iteration order of the annotation sets: an
annotation could be paired with the only partner of a later one.
---
 agentspeak/__init__.py | 65 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e19d1a4..0437180 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -628,37 +628,27 @@ class Literal(object):
         return all(unify(l, r, scope, stack) for l, r in zip(self.args, right.args))
 
     def unify_annotated(self, right, scope, stack):
+        choicepoint = object()
+        stack.append(choicepoint)
+        for _ in self._match_annotated(right, scope, stack):
+            yield
+            break
+        reroll(scope, stack, choicepoint)
+
+    def _match_annotated(self, right, scope, stack):
+        # Yields for every possible way to pair up the annotations.
         right = evaluate(right, scope)
-        if isinstance(right, Var):
-            choicepoint = object()
-            stack.append(choicepoint)
-            if right.unify(self, scope, stack):
-                yield
-            reroll(scope, stack, choicepoint)
-            return
 
         choicepoint = object()
         stack.append(choicepoint)
-        if self.unify(right, scope, stack):
-            closed_right_annots = set()
-            for left_annot in self.annots:
-                found_right = False
-
-                for right_annot in right.annots:
-                    if right_annot in closed_right_annots:
-                        continue
-                    for _ in unify_annotated(left_annot, right_annot, scope, stack):
-                        found_right = True
-                        closed_right_annots.add(right_annot)
-                        break
-
-                    if found_right:
-                        break
-
-                if not found_right:
-                    reroll(scope, stack, choicepoint)
-                    return
-            yield
+        if isinstance(right, Var):
+            if right.unify(self, scope, stack):
+                yield
+        elif self.unify(right, scope, stack):
+            for _ in _match_annots(
+                tuple(self.annots), tuple(right.annots), scope, stack
+            ):
+                yield
         reroll(scope, stack, choicepoint)
 
     def is_atom(self):
@@ -914,6 +904,27 @@ def unify_annotated(left, right, scope, stack):
         reroll(scope, stack, choicepoint)
 
 
+def _match_annots(left_annots, right_annots, scope, stack):
+    """
+    Matches each of the left annotations with a different right annotation.
+    """
+    if not left_annots:
+        yield
+        return
+
+    left = left_annots[0]
+    match = left._match_annotated if is_literal(left) else None
+    for i, right in enumerate(right_annots):
+        remaining = right_annots[:i] + right_annots[i + 1 :]
+        for _ in (
+            match(right, scope, stack)
+            if match
+            else unify_annotated(left, right, scope, stack)
+        ):
+            for _ in _match_annots(left_annots[1:], remaining, scope, stack):
+                yield
+
+
 def unifies_annotated(left, right, scope=None, stack=None):
     if scope is None:
         scope = {}
-- 
2.43.0


From d03b2cea1eec4a7d59b8e89a5af84b714f0751f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 03/33] fix: undo the bindings of an action when backtracking
 over it

Function-like actions bind their result (or, on failure, a part of it)
without undoing it when another answer is asked for.
---
 agentspeak/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..7ae10bd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -183,9 +183,14 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
+
         for _ in self.impl(agent, self.term, intention):
             yield
 
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 7e4600338b1436acc32e786d69b9d9dea6aadc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 04/33] fix: answers without bindings also undo what was bound
 after them

Bindings made in the body of a for loop over such a query, or before an
alternative of it was tried, stayed behind.
---
 agentspeak/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7ae10bd..1ac7bcd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -168,7 +168,10 @@ class BuildEventVisitor(BuildTermVisitor):
 
 class TrueQuery:
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
         yield
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
 
 class FalseQuery:
@@ -200,7 +203,8 @@ class TermQuery:
         # Boolean constants.
         term = agentspeak.evaluate(self.term, intention.scope)
         if term is True:
-            yield
+            for _ in TrueQuery().execute(agent, intention):
+                yield
             return
         elif term is False:
             return
@@ -276,7 +280,8 @@ class NotQuery:
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
         if not success:
-            yield
+            for _ in TrueQuery().execute(agent, intention):
+                yield
 
     def __str__(self):
         return "not " + str(self.query.term)
-- 
2.43.0


From 56473f2c2b35d83982576025976e1fbe94e5bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 05/33] fix: query a snapshot of the belief set

Changing the beliefs while a query over them was suspended (the body of a
for loop) raised RuntimeError.
---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1ac7bcd..d3dced7 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -215,7 +215,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From 76f4aec277666e45c8a73b901b917e4876cd62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 06/33] fix: accept events while an intention stack is empty

An unachieved goal leaves an empty stack in the queue; an event arriving
before the next step raised IndexError.
---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d3dced7..a763eda 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -477,7 +477,7 @@ class Agent:
 
                     if not delayed and self.intentions:
                         for intention_stack in self.intentions:
-                            if intention_stack[-1] == calling_intention:
+                            if intention_stack and intention_stack[-1] == calling_intention:
                                 intention_stack.append(intention)
                                 return True
 
-- 
2.43.0


From 467c870c6e9c376a57097e33ad31f1e3139595ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 07/33] fix: abolish beliefs with extra annotations

The arguments of the match were swapped: the annotations of the belief had
to be a subset of those of the pattern.
---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..7861e23 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -310,7 +310,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From 58b17763164007fab6f4c6872f8f9c192b6465e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 08/33] fix: resolve the pattern of .findall separately for
 each answer

With a shared memo a variable that one answer left unbound stayed unbound
in all later answers.
---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 7861e23..50edff8 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -278,9 +278,8 @@ def _findall(agent, term, intention):
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-    memo = {}
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, memo))
+        result.append(agentspeak.freeze(pattern, intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 2c3e490e3f3906891f09c049ae7e30a726f85c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 09/33] fix: .member follows the bound tail of a linked list

Iterating over a list [H|T] with T bound to a list raised TypeError.
---
 agentspeak/stdlib.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 50edff8..02e8f81 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -247,7 +247,15 @@ def _substring(agent, term, intention):
 def _member(agent, term, intention):
     choicepoint = object()
 
-    for member in agentspeak.evaluate(term.args[1], intention.scope):
+    def members():
+        rest = agentspeak.evaluate(term.args[1], intention.scope)
+        while isinstance(rest, agentspeak.LinkedList):
+            yield rest.head
+            rest = agentspeak.evaluate(rest.tail, intention.scope)
+        for member in rest:
+            yield member
+
+    for member in members():
         intention.stack.append(choicepoint)
 
         if agentspeak.unify(term.args[0], member, intention.scope, intention.stack):
-- 
2.43.0


From f2820a8646ed4825e138b4a5a22d55afdd4c91b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 10/33] fix: .concat joins lists written as [Head|Tail]

They were concatenated as strings.
---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 02e8f81..85eb316 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -196,7 +196,7 @@ def _my_name(agent, term, intention):
 def _concat(agent, term, intention):
     args = [agentspeak.grounded(arg, intention.scope) for arg in term.args[:-1]]
 
-    if all(isinstance(arg, (tuple, list)) for arg in args):
+    if all(agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
         result = "".join(str(arg) for arg in args)
-- 
2.43.0


From 541019d78ff8860704f35d8bdaee973b7a123d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 11/33] fix: .concat uses the AgentSpeak spelling of terms

Numbers and booleans were spelled as in Python (5.0, True).
---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 85eb316..3831456 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -199,7 +199,7 @@ def _concat(agent, term, intention):
     if all(agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
-        result = "".join(str(arg) for arg in args)
+        result = "".join(asl_str(arg) for arg in args)
 
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
-- 
2.43.0


From c2304391f1ac4e3857cd4f59b56be11a50b01196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 12/33] fix: resolve the content of tellHow, askHow and
 untellHow messages

A plan held in a variable reached the receiver as the bare variable.
---
 agentspeak/stdlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 3831456..7f55b4d 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,8 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        plain_text = agentspeak.freeze(term.args[2], intention.scope, {})
+        message = agentspeak.Literal("plain_text", (plain_text, ), frozenset())
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From c963f4ce312c7a825ca9b6e9637ba0ded28f84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 13/33] fix: survive deadlines that pass before going to sleep

time.sleep() raises ValueError for negative durations, and run_agent()
took a deadline of 0 for no deadline.
---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index a763eda..c58e046 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -886,8 +886,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
     def run(self):
@@ -902,7 +902,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(0, min(deadlines) - self.time()))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From e62d100871969c3a21b8b85984605ab5e61ff82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 14/33] fix: instances from build_agents share no state

The belief sets and plan lists of the prototype were shared by all
instances, only the prototype handled the events of the initial beliefs,
and it was not given the requested name.
---
 agentspeak/runtime.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index c58e046..c1e6baa 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -853,25 +853,14 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
-
-        # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls, name)
         agents = [prototype_agent]
 
+        # Create more instances from the same syntax tree. They must not share
+        # their beliefs, rules and plans.
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
-
-            for ast_goal in ast_agent.goals:
-                term = ast_goal.atom.accept(BuildTermVisitor({}))
-                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
-                           term, Intention(), delayed=True)
-
+            _, agent = self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
             agents.append(agent)
-            self.agents[agent.name] = agent
 
         return agents
 
-- 
2.43.0


From 91ebfbc734b2ec2a61461e33baa26571a85a048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 15/33] fix: booleans and numbers are never equal

---
 agentspeak/__init__.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 0437180..8811336 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -281,8 +281,8 @@ class BinaryOp(enum.Enum):
 
     op_lt = Operator("<", operator.lt, comp=True)
     op_le = Operator("<=", operator.le, comp=True)
-    op_ne = Operator("\\==", operator.ne, comp=True)
-    op_eq = Operator("==", operator.eq, comp=True)
+    op_ne = Operator("\\==", lambda l, r: not equal(l, r), comp=True)
+    op_eq = Operator("==", lambda l, r: equal(l, r), comp=True)
     op_ge = Operator(">=", operator.ge, comp=True)
     op_gt = Operator(">", operator.gt, comp=True)
 
@@ -706,7 +706,7 @@ class Literal(object):
         return (
             not is_literal(other)
             or self.functor != other.functor
-            or self.args != other.args
+            or not equal(self.args, other.args)
             or self.annots != other.annots
         )
 
@@ -824,7 +824,7 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        return not is_list(other) or not equal(self, other)
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
@@ -935,6 +935,21 @@ def unifies_annotated(left, right, scope=None, stack=None):
     return False
 
 
+def equal(left, right):
+    """
+    Tests if the two given ground terms are equal. Unlike in Python, a boolean
+    never equals a number.
+    """
+    if is_list(left) and is_list(right):
+        left = tuple(left)
+        right = tuple(right)
+        return len(left) == len(right) and all(map(equal, left, right))
+    elif isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    else:
+        return left == right
+
+
 def is_ground(term, scope):
     if hasattr(term, "is_ground"):
         return term.is_ground(scope)
-- 
2.43.0


From 670708fc8c6817a2204f43a24d4d83c74e05bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 16/33] fix: ordering a boolean and a number is an error

---
 agentspeak/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 8811336..4631af4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -575,6 +575,14 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
+            if isinstance(left, bool) != isinstance(right, bool) and (
+                self.binary_op not in (BinaryOp.op_eq.value, BinaryOp.op_ne.value)
+            ):
+                raise AslError(
+                    "bad operand types for binary op: %r %s %r"
+                    % (type(left), self.binary_op.lexeme, type(right))
+                )
+
         return self.binary_op.func(left, right)
 
     def is_ground(self, scope):
-- 
2.43.0


From c27e2937b310d8cf0ea2114a03eb9f506d8a22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 17/33] fix: compare lists whose tail is not a list

---
 agentspeak/__init__.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 4631af4..50b6113 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -831,28 +831,43 @@ class LinkedList(object):
     def __eq__(self, other):
         return not self.__ne__(other)
 
+    def _is_proper(self):
+        tail = self.tail
+        while isinstance(tail, LinkedList):
+            tail = tail.tail
+        return isinstance(tail, tuple)
+
     def __ne__(self, other):
-        return not is_list(other) or not equal(self, other)
+        return not equal(self, other)
 
     def __lt__(self, other):
-        return tuple(self) < tuple(other) if is_list(other) else NotImplemented
+        return tuple(self) < tuple(other) if _are_proper(self, other) else NotImplemented
 
     def __le__(self, other):
-        return tuple(self) <= tuple(other) if is_list(other) else NotImplemented
+        return tuple(self) <= tuple(other) if _are_proper(self, other) else NotImplemented
 
     def __gt__(self, other):
-        return tuple(self) > tuple(other) if is_list(other) else NotImplemented
+        return tuple(self) > tuple(other) if _are_proper(self, other) else NotImplemented
 
     def __ge__(self, other):
-        return tuple(self) >= tuple(other) if is_list(other) else NotImplemented
+        return tuple(self) >= tuple(other) if _are_proper(self, other) else NotImplemented
 
     def __hash__(self):
-        try:
+        if self._is_proper():
             return hash(tuple(self))
-        except TypeError:
+        else:
             return hash((self.head, self.tail))
 
 
+def _are_proper(*terms):
+    # Tests if all terms are lists that end with the empty list.
+    return all(
+        isinstance(term, tuple)
+        or (isinstance(term, LinkedList) and term._is_proper())
+        for term in terms
+    )
+
+
 def deref(term, scope):
     """
     Dereferences a variable.
@@ -948,10 +963,17 @@ def equal(left, right):
     Tests if the two given ground terms are equal. Unlike in Python, a boolean
     never equals a number.
     """
-    if is_list(left) and is_list(right):
+    if _are_proper(left, right):
         left = tuple(left)
         right = tuple(right)
         return len(left) == len(right) and all(map(equal, left, right))
+    elif isinstance(left, LinkedList) or isinstance(right, LinkedList):
+        return (
+            isinstance(left, LinkedList)
+            and isinstance(right, LinkedList)
+            and equal(left.head, right.head)
+            and equal(left.tail, right.tail)
+        )
     elif isinstance(left, bool) or isinstance(right, bool):
         return left is right
     else:
-- 
2.43.0


From 00499dc69e5f37708baeeccde34205e5f96709b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 18/33] fix: powers that are not real numbers are errors

---
 agentspeak/__init__.py | 9 ++++++++-
 agentspeak/parser.py   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 50b6113..6701db8 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -264,9 +264,16 @@ class UnaryOp(enum.Enum):
     op_neg = Operator("-", operator.neg, numeric=True)
 
 
+def power(base, exponent):
+    result = operator.pow(base, exponent)
+    if isinstance(result, complex):
+        raise AslError("negative number cannot be raised to a fractional power")
+    return result
+
+
 @enum.unique
 class BinaryOp(enum.Enum):
-    op_pow = Operator("**", operator.pow, numeric=True)
+    op_pow = Operator("**", power, numeric=True)
 
     op_mul = Operator("*", operator.mul, numeric=True)
     op_truediv = Operator("/", operator.truediv, numeric=True)
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..050e28a 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1130,7 +1130,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except (ArithmeticError, agentspeak.AslError) as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
-- 
2.43.0


From e01e18b72cea490d25977d248e4c312165a5d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 19/33] fix: find the variables of operators and linked lists
 in beliefs

---
 agentspeak/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 050e28a..a7ee5e8 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1060,6 +1060,12 @@ class FindVariablesVisitor(object):
             for var in term.accept(self):
                 yield var
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_const(self, ast_const):
         return
         yield
@@ -1069,14 +1075,14 @@ class FindVariablesVisitor(object):
 
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
-- 
2.43.0


From d9326e5e7976d9f1ce0aadd54126fafe8c571916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 20/33] fix: lists in numeric or boolean context are errors

---
 agentspeak/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index a7ee5e8..3c45b3d 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1186,6 +1186,8 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    visit_linked_list = visit_list
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1266,6 +1268,9 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    visit_linked_list = visit_list
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 72986b8975f256b70d76ea2b8805c85db535690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 21/33] fix: strings keep characters outside ASCII

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 6701db8..7b5fe0b 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -325,7 +325,7 @@ def sanitize_functor(s):
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return s[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")
 
 
 def asl_str(term):
-- 
2.43.0


From 166137eb19d51e6cb5d89d3f4e7c494ccd35410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 22/33] fix: report invalid escape sequences in strings

---
 agentspeak/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 3c45b3d..0ac129a 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -424,6 +424,13 @@ class AstAgent(AstNode):
         return "".join(builder)
 
 
+def parse_string(tok, log):
+    try:
+        return agentspeak.parse_string(tok.lexeme)
+    except UnicodeDecodeError as err:
+        raise log.error("invalid escape sequence in string: %s", err.reason, loc=tok.loc)
+
+
 def parse_literal(tok, tokens, log):
 
     if not tok.token.functor:
@@ -548,7 +555,7 @@ def parse_atom(tok, tokens, log):
         return next(tokens), const
     elif tok.token.string:
         const = AstConst()
-        const.value = agentspeak.parse_string(tok.lexeme)
+        const.value = parse_string(tok, log)
         const.loc = tok.loc
         return next(tokens), const
     else:
@@ -959,7 +966,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 tok = next(tokens)
                 if not tok.token.string:
                     raise log.error("expected filename to include, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-                include = agentspeak.parse_string(tok.lexeme)
+                include = parse_string(tok, log)
                 tok = next(tokens)
                 if tok.lexeme != ")":
                     raise log.error("expected ')' after include filename, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-- 
2.43.0


From 68d8a5f37019ff7aa1f4523b246c476f6455cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 23/33] fix: recognize circular includes however the path is
 spelled

---
 agentspeak/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 0ac129a..6c4be79 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -943,7 +943,7 @@ def parse_plan(tok, tokens, log):
 
 
 def parse_agent(filename, tokens, log, included_files, directive=None):
-    included_files = included_files | frozenset([os.path.normpath(filename)])
+    included_files = included_files | frozenset([os.path.realpath(filename)])
     agent = AstAgent()
     last_plan = None
 
@@ -978,7 +978,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.realpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
-- 
2.43.0


From 0f2c56518d3bfd0645b8574db9646d46f4f7f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 24/33] fix: report illegal characters in included files

---
 agentspeak/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 6c4be79..d5feb58 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -989,7 +989,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log, 1)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From 421efb4a7b28c26b85c9c88104bdf6cb4080000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 25/33] fix: report include files that can not be opened

---
 agentspeak/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index d5feb58..8bab999 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -983,11 +983,11 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 else:
                     try:
                         included_file = open(include)
-                    except IOError as err:
-                        if err.errno == errno.ENOENT:
+                    except (IOError, ValueError) as err:
+                        if getattr(err, "errno", None) == errno.ENOENT:
                             log.error("include file not found: '%s'", include, loc=include_loc)
                         else:
-                            raise
+                            log.error("include file not readable: '%s' (%s)", include, err, loc=include_loc)
                     else:
                         included_tokens = agentspeak.lexer.TokenStream(included_file, log, 1)
                         included_agent = parse(include, included_tokens, log, included_files)
-- 
2.43.0


From 965e5d5e5cbc99cd8c0e86160b608634a17ba252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 26/33] fix: compare values of different kinds in rules

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 7b5fe0b..07e76c7 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -583,7 +583,7 @@ class BinaryExpr(object):
             right = grounded(right, scope)
 
             if isinstance(left, bool) != isinstance(right, bool) and (
-                self.binary_op not in (BinaryOp.op_eq.value, BinaryOp.op_ne.value)
+                self.binary_op.lexeme not in ("==", "\\==")
             ):
                 raise AslError(
                     "bad operand types for binary op: %r %s %r"
-- 
2.43.0


From 5649fe40745c2b3588259a3392c4524d7b6634c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 27/33] fix: report include names that cannot name a file

---
 agentspeak/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 8bab999..6bf2b84 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -978,7 +978,12 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if os.path.realpath(include) in included_files:
+                try:
+                    realpath = os.path.realpath(include)
+                except ValueError:
+                    realpath = None  # Not a file name, so open() fails
+
+                if realpath in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
-- 
2.43.0


From 8344d22bc1ed207e6e25df10c5dc001a1d5f31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 28/33] fix: send plans as printed from their syntax tree

The text was pieced together from compiled parts: heads annotated with
variables or lists crashed the build, asking twice exhausted the saved
arguments, contexts kept internal variable names and plans without body
ended in 'None'.
---
 agentspeak/runtime.py | 41 +++++------------------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index c1e6baa..0926079 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -24,7 +24,6 @@ import functools
 import os.path
 import sys
 import time
-import re
 
 import agentspeak
 import agentspeak.lexer
@@ -309,15 +308,14 @@ class Rule:
 
 
 class Plan:
-    def __init__(self, trigger, goal_type, head, context, body, str_body, annotation):
+    def __init__(self, trigger, goal_type, head, context, body, source, annotation):
         self.trigger = trigger
         self.goal_type = goal_type
         self.head = head
         self.context = context
         self.body = body
-        self.str_body = str_body
+        self.source = source
         self.annotation = annotation
-        self.args = [None,None]
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -552,9 +550,7 @@ class Agent:
 
         # Converts the Astplan to Plan
             
-        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-        
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
 
         self.add_plan(plan)
 
@@ -742,26 +738,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return plan.source + "."
 
 
 class Environment:
@@ -808,15 +785,7 @@ class Environment:
             if ast_plan.body:
                 ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
-            str_body = str(ast_plan.body)
-            
-            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
-
-
-
-            agent.add_plan(plan)
+            agent.add_plan(Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation))
 
         # Add beliefs to agent prototype.
         for ast_belief in ast_agent.beliefs:
-- 
2.43.0


From 5466310e0e6fbb6651ec97afe14026b927e55b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 29/33] fix: told plans are read like plans of programs

Errors in their text were not reported, constants not folded, and actions
of the agent's own action set not found.
---
 agentspeak/runtime.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 0926079..7bd7d84 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -365,6 +365,9 @@ class Agent:
 
         self.intentions = collections.deque()
 
+        # Actions available to plans that are told.
+        self.actions = None
+
     def dump(self):
         LOGGER.info("Belief base")
         for beliefs in self.beliefs.values():
@@ -516,25 +519,22 @@ class Agent:
         """
         str_plan = term.args[0]
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
+        if not agentspeak.is_string(str_plan):
+            raise AslError("expected plan as string, got: '%s'" % (str_plan, ))
 
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
-        log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
+        # Parse and check the string like a program.
+        log = agentspeak.Log(LOGGER, 3)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<stdin>", str_plan), log)
+        ast_agent = agentspeak.parser.parse("<stdin>", tokens, log)
+        log.throw()
 
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        if len(ast_agent.plans) != 1:
+            raise AslError("expected one plan, got: '%s'" % str_plan)
+        ast_plan = ast_agent.plans[0]
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-        actions = agentspeak.stdlib.actions
+        actions = agentspeak.stdlib.actions if self.actions is None else self.actions
 
         head = ast_plan.event.head.accept(BuildTermVisitor(variables))
 
@@ -548,8 +548,9 @@ class Agent:
         if ast_plan.body:
             ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
+        log.throw()
+
         # Converts the Astplan to Plan
-            
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
 
         self.add_plan(plan)
@@ -761,6 +762,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
-- 
2.43.0


From 0d8d4b0bcc8cf63abddd18330aeafdf3457e0b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:47 +0000
Subject: [PATCH 30/33] fix: asking for plans delivers exactly the plans of the
 goal asked for

Only the last plan of each goal was sent, plans of goals whose name merely
occurs in the question were sent too, and the asking statement failed
even when plans were delivered, or crashed when there were none.
---
 agentspeak/runtime.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7bd7d84..8601895 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -574,11 +574,24 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
+        if not agentspeak.is_string(term.args[0]):
+            raise AslError("expected event as string, got: '%s'" % (term.args[0], ))
+
+        # Parse the event. Without arguments it stands for any number of them.
+        log = agentspeak.Log(LOGGER, 1)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<stdin>", term.args[0] + "."), log)
+        tok, event = agentspeak.parser.parse_event(next(tokens), tokens, log)
+        if tok.lexeme != ".":
+            raise log.error("unexpected '%s' after event", tok.lexeme, loc=tok.loc)
+        wanted = len(event.head.terms)
+
         plans_wanted = collections.defaultdict(lambda: [])
         plans = self.plans.values()
         for plan in plans:
             for differents in plan:
-                if differents.head.functor in term.args[0]:
+                if (differents.trigger == event.trigger and differents.goal_type == event.goal_type
+                        and differents.head.functor == event.head.functor
+                        and wanted in (0, len(differents.head.args))):
                     plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
 
         # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
@@ -598,11 +611,13 @@ class Agent:
                 for differents in plan:
                     strplan = plan_to_str(differents)
                     message = agentspeak.Literal("plain_text", (strplan,), frozenset())
-                for receiver in receiving_agents:
-                    self._call_ask_how(receiver, message, intention)
+                    for receiver in receiving_agents:
+                        self._call_ask_how(receiver, message, intention)
         else:
             log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+            log.warning("agent %s does not know any plan for %s", self.name, term.args[0])
+
+        return True
 
     def _untell_how(self, term):
         """
-- 
2.43.0


From e3fc39e84a1f5bf4a2df50d0c30f3f1a813359cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:55 +0000
Subject: [PATCH 31/33] fix: negative left operands are printed in parentheses

---
 agentspeak/__init__.py | 6 +++++-
 agentspeak/parser.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 07e76c7..793b7cc 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -602,8 +602,12 @@ class BinaryExpr(object):
         return freeze(self.evaluate(scope), scope, memo)
 
     def asl_repr(self):
+        # Powers bind tighter than the sign of a negative number.
+        left = asl_repr(self.left)
+        if left.startswith("-"):
+            left = "(%s)" % left
         return "(%s %s %s)" % (
-            asl_repr(self.left),
+            left,
             self.binary_op.lexeme,
             asl_repr(self.right),
         )
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 6bf2b84..712d1c2 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,11 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        # Powers bind tighter than the sign of a negative constant.
+        left = str(self.left)
+        if left.startswith("-"):
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From 065afb11240fd0544a0782b3ac4b863382d39169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:18 +0000
Subject: [PATCH 32/33] fix: infinite numbers are printed as a number

---
 agentspeak/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 793b7cc..599040d 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -32,6 +32,7 @@ import sys
 import colorama
 import operator
 import hashlib
+import math
 import numbers
 
 try:
@@ -359,6 +360,9 @@ def asl_repr(term):
         return "[%s]" % (", ".join(asl_repr(t) for t in term))
     elif isinstance(term, float) and term.is_integer():
         return repr(int(term))
+    elif isinstance(term, float) and math.isinf(term):
+        # There is no name for infinity, but large numbers are read as such.
+        return "1e999" if term > 0 else "-1e999"
     else:
         try:
             return term.asl_repr()
-- 
2.43.0


From 387bf5b3ac1f40ab4653808d84f424069173577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:08 +0000
Subject: [PATCH 33/33] fix: failed removals and conditions are reported with
 their position

---
 agentspeak/runtime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 8601895..ff91134 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -972,14 +972,16 @@ class BuildInstructionsVisitor:
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.remove:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
-            self.add_instr(functools.partial(remove_belief, term))
+            self.add_instr(functools.partial(remove_belief, term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.test:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(test_belief, term),
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.replace:
             removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
-            self.add_instr(functools.partial(remove_belief, removal_term))
+            self.add_instr(functools.partial(remove_belief, removal_term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
 
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(add_belief, term),
@@ -1004,7 +1006,7 @@ class BuildInstructionsVisitor:
         query = ast_for.generator.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
 
-        for_head = self.add_instr(next_or_fail)
+        for_head = self.add_instr(next_or_fail, loc=ast_for.generator.loc)
 
         last_in_loop = ast_for.body.accept(self)
         last_in_loop.success = for_head
@@ -1016,7 +1018,7 @@ class BuildInstructionsVisitor:
     def visit_if_then_else(self, ast_if_then_else):
         query = ast_if_then_else.condition.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_if_then_else.condition.loc)
 
         tail = Instruction(pop_query)
 
@@ -1045,7 +1047,7 @@ class BuildInstructionsVisitor:
         while_head = self.add_instr(functools.partial(push_query, query))
         self.add_instr(push_choicepoint)
 
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)
         test_instr.failure = tail
 
         self.add_instr(pop_query)
-- 
2.43.0

