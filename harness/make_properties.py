import json
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
    assert len(title)<=80,(id,len(title))
    return d
I="agentspeak/__init__.py";R="agentspeak/runtime.py";S="agentspeak/stdlib.py";PA="agentspeak/parser.py";L="agentspeak/lexer.py";X="agentspeak/ext_stdlib.py"
ps=[
P("C01","Unification yields a most general unifier, or fails",
 "Unifying two finite terms (numbers, strings, booleans, atoms, structures, lists in either notation, variables, wildcards, arithmetic expressions standing for their value) succeeds exactly when some assignment of their variables makes them equal, and then binds the variables to a most general such assignment. The verdict and the answer do not depend on argument order, and a boolean never unifies with a number. A wildcard matches anything and binds nothing, and expressions without a value never unify. (Pairs whose only solution is an infinite term are outside this guarantee.)",
 ["inputs"],"all pairs of finite terms, with any prior bindings of their variables",
 "tests/test_terms.py samples a dozen pairs; shared variables, chains of bound variables and the two list notations multiply without bound",
 [I],[("unify and the unify methods of the term classes",I+": unify, Var.unify, Literal.unify, LinkedList.unify"),("binding trail",I+": Var.bind, reroll, deref")],
 [("scope","variable bindings of one intention",I+": Var.bind"),("stack","trail of bound variables and choice points",I+": reroll")],
 ["agentspeak.unify / unifies on public term objects","programs using '=' and query matching"]),
P("C02","Annotated matching is subset matching, independent of set order",
 "A literal pattern matches an annotated literal exactly when functor, arity and arguments unify and its annotations can be paired one-to-one with different annotations of the other literal so that all pairs match together; the same holds for annotations nested inside annotations. The verdict never depends on the iteration order of annotation sets, one match yields one solution per literal, and a failed or abandoned match leaves no variable bound. (Matches where variables stand for whole annotations on both sides are outside.)",
 ["inputs","schedules"],"all pairs of annotated literals and all hash orders of their annotation sets",
 "the tests use one or two annotations under one fixed hash seed; which pairings are tried depends on the hash order of the annotations",
 [I,R],[("annotated unification",I+": Literal.unify_annotated, unify_annotated"),("query on the belief base",R+": TermQuery.execute")],
 [("annots","annotation set of a literal",I+": Literal")],["agentspeak.unify_annotated","queries, plan heads and belief removal with annotations"]),
P("C03","Queries enumerate exactly the logical answers and leak no bindings",
 "Evaluating a query built from beliefs, rules, conjunction, disjunction, negation, unification, comparisons and built-in predicates enumerates exactly its answers: every matching belief once, then rules in textual order, depth-first and left to right, each answer carrying exactly its own bindings. Negation binds nothing, and a branch that failed or was left through backtracking leaves no variable bound that it had bound.",
 ["programs","inputs"],"all queries over all belief bases and rule sets",
 "the tests run a handful of queries and mostly only print the answers; leaks show only when a failed branch is followed by another use of the same variable",
 [R,I,S],[("query tree",R+": BuildQueryVisitor, TermQuery, AndQuery, OrQuery, NotQuery, UnifyQuery, ActionQuery"),("rule renaming",R+": TermQuery.execute"),("trail",I+": reroll")],
 [("query stack","suspended queries of an intention",R+": push_query, next_or_fail")],["values seen by statements after a query","order of for-loop iterations"]),
P("C04","The belief base is exactly the result of the updates applied to it",
 "At every moment an agent's belief base equals what its initial beliefs and the executed additions, removals, replacements and abolitions produce: an addition stores one ground fact (with its annotations) and stays idempotent, a removal deletes exactly one matching fact and binds the pattern to it, or nothing if none matches, a replacement removes at most one fact with the same name and arity and then adds, and abolish deletes all facts matching the pattern whatever their extra annotations. Every addition, and every removal that deleted something, raises the corresponding event exactly once; facts not matching are never touched.",
 ["histories","programs"],"all sequences of belief updates by any intentions, actions and messages",
 "tests/asl checks two short update sequences, one of which passes only for a particular hash seed; sequences and set orders are unbounded",
 [R,S],[("belief events",R+": Agent.call, add_belief, remove_belief"),("replacement",R+": BuildReplacePatternVisitor, BuildInstructionsVisitor.visit_formula"),("abolish",S+": _abolish")],
 [("beliefs","facts by name and arity",R+": Agent.beliefs")],["agent.beliefs after every step","plans triggered by +b / -b"]),
P("C05","The first applicable plan in program order is the one that runs",
 "For every event the agent starts exactly one plan: the first plan, in the order plans were added, whose trigger and head match the event and whose context holds, using the first solution of the context, with the head and context bindings available to its body. A plan that does not match or whose context fails contributes nothing; an achievement event without an applicable plan is an error, a test goal then falls back to querying the beliefs, and a belief event without one is ignored.",
 ["programs","inputs"],"all plan libraries, belief bases and events",
 "tests have at most two plans per event; the choice depends on the whole plan library, belief base and event arguments",
 [R],[("plan selection",R+": Agent.call"),("plan library",R+": Agent.add_plan")],
 [("plans","plans by event signature",R+": Agent.plans")],["first statement executed for an event","error raised for an unhandled goal"]),
P("C06","Subgoals run to completion before the caller, and return their bindings",
 "Statements of a plan body run in order, and a synchronous subgoal or belief-event plan completes entirely before the statement after it runs, at any nesting or recursion depth. On return the caller's unbound arguments receive exactly the values the subplan gave them; no other variable of either plan is visible in or altered by the other, and each activation has its own variables. A deferred goal runs later as its own intention and never binds the caller's variables.",
 ["programs","histories"],"all call trees of subgoals, test goals and belief events, including recursion",
 "one test calls one subplan once; recursion, aliasing between arguments and nested events are unbounded",
 [R,I],[("call and back-unification",R+": Agent.call, Agent.step"),("copying of goals",I+": freeze")],
 [("intention stack","activations of one intention",R+": Agent.intentions")],["order and arguments of recorded actions"]),
P("C07","if, while and for execute exactly as their conditions dictate",
 "An if runs exactly one of its branches with the bindings of the first answer of its condition; a while re-evaluates its condition from the bindings before the loop, runs its body once per success and continues after the first failure; a for runs its body once for each answer of its generator, in order, even if the body changes the beliefs being iterated. Bindings made by one iteration are not visible in the next nor, for loops over matching or unification, after the loop; nesting and empty blocks do not disturb enclosing constructs.",
 ["programs"],"all nestings of control structures over all conditions and bodies",
 "tests cover a few fixed nestings; interactions of loops with bindings, belief changes and empty blocks are unbounded",
 [R,PA],[("instruction graph",R+": BuildInstructionsVisitor"),("query and choice point stacks",R+": push_query, next_or_fail, pop_query, push_choicepoint, pop_choicepoint")],
 [("query stack / choicepoint stack","open loops of an intention",R+": Intention")],["sequence of recorded actions and their arguments"]),
P("C08","Scheduling runs every intention: in order, fairly, none lost or repeated",
 "Within an agent the oldest intention that is not waiting always runs next, so goals and events posted as new intentions execute in posting order, and every intention is executed to its end exactly once. Running an environment steps all agents in turn, so that no agent with work is skipped, and returns only when no agent has anything left to do or to wait for; stepping an agent reports work exactly when it had a runnable intention.",
 ["schedules","histories"],"all interleavings of steps of any number of agents, intentions, deferred goals and external calls",
 "the tests run single agents to the end; order and loss depend on how intentions of several agents interleave",
 [R],[("step",R+": Agent.step"),("run loops",R+": Environment.run, Environment.run_agent, Agent.run")],
 [("intentions","queue of intention stacks",R+": Agent.intentions")],["recorded actions per step","return value of step and run"]),
P("C09","A waiting intention resumes when, and only when, its wait is over",
 "An intention that waits executes nothing until its deadline has passed or an event matching its awaited event occurs in its agent, and then it resumes; other intentions of the agent keep running meanwhile. Waiting for an event ignores non-matching events, waiting with both resumes at whichever comes first, and running an environment sleeps until the earliest deadline and always survives deadlines that pass while it is deciding how long to sleep.",
 ["schedules","histories"],"all clock behaviours and all orders of events, deadlines and steps",
 "one test waits on three events in real time; races between clock and scheduler cannot be provoked by a unit test with the real clock",
 [R,S],[("waiters",R+": Waiter, Agent.step, Agent.shortest_deadline"),("wake-up",R+": Agent.call"),("sleeping",R+": Environment.run, Environment.run_agent"),("wait action",S+": _wait")],
 [("waiter","awaited event and deadline of an intention",R+": Intention")],["virtual clock at each recorded action"]),
P("C10","Messages reach exactly their addressees, once, truthfully labelled",
 "Sending a message delivers it exactly once, in sending order, to each named receiver (a broadcast: to every other agent) and to nobody else: tell adds the content as a belief, untell removes one matching belief, achieve starts a goal as a new intention of the receiver, each with an annotation naming the true sender. The content is a snapshot at sending time: variables of the sender and the receiver never affect each other afterwards, and an unknown force or receiver is an error that delivers nothing.",
 ["histories","schedules"],"all message sequences between any number of agents, under any interleaving",
 "no existing test sends a message at all",
 [S,R],[("send and broadcast",S+": _send, _broadcast"),("delivery",R+": Agent.call")],
 [("agents","agents of the environment by name",R+": Environment.agents")],["beliefs and recorded actions of all agents"]),
P("C11","Unachieve stops exactly the matching current goals of the receiver",
 "An unachieve message ends, in the receiver, the current activity of every intention whose current goal matches the given goal pattern: no further statement of that activity runs, whether it was ready or waiting, and an enclosing activity continues as if the goal had completed. All other intentions and beliefs, and the receiver's ability to accept later goals, messages and waits, stay unaffected.",
 ["histories","schedules"],"all intention sets, patterns and moments at which the message arrives",
 "no existing test uses unachieve; the outcome depends on which intentions exist and wait at that moment",
 [R,S],[("unachieve",R+": Agent._unachieve, Agent.call, Agent.step")],
 [("intentions","queue of intention stacks, possibly emptied",R+": Agent.intentions")],["recorded actions of the receiver after the message"]),
P("C12","Exchanged plans behave as the originals; forgetting removes just the labelled",
 "A plan sent with tellHow is appended to the receiver's plan library and from then on behaves exactly as if it had been written last in the receiver's program; asking an agent for a goal's plans delivers every plan the agent has for that goal, each behaving in the asker as the original (same head, context, body and label), any number of times, and changes nothing in the agent asked. untellHow removes exactly the plans carrying the given label; asking for unknown plans delivers nothing and disturbs nobody.",
 ["programs","histories"],"all plans (heads, contexts, bodies, labels) and sequences of exchanges",
 "no existing test exchanges plans; a plan travels as text, so every construct of the language must survive printing and re-parsing",
 [R,S,PA],[("plan exchange",R+": Agent._tell_how, _ask_how, _untell_how, plan_to_str"),("messages",S+": _send"),("printing of programs",PA+": __str__ of the AST classes")],
 [("plans","plans by event signature",R+": Agent.plans")],["behaviour of the receiver's later goals"]),
P("C13","Agents in one environment are isolated and uniquely named",
 "Agents of one environment share no state, whether built separately or as several instances of one program: a belief, plan or intention change in one is never visible in another except through messages. Every instance starts with the full initial beliefs, rules, plans and goals of its program, and every agent gets a unique name, derived from its source or the requested name, under which it can be addressed.",
 ["histories","configurations"],"all numbers of instances, programs and interleaved histories of updates",
 "no existing test builds more than one agent",
 [R,I],[("building agents",R+": Environment.build_agent, build_agents, build_agent_from_ast"),("naming",R+": Environment._make_name; "+I+": sanitize_functor")],
 [("agents","agents by name",R+": Environment.agents")],["beliefs and behaviour of every instance"]),
P("C14","Expressions mean the same folded, run, or regrouped by their precedence",
 "An expression evaluates to the value given by standard arithmetic (+ - * / div mod **, unary signs), comparison and boolean rules with the documented precedence and associativity, and a constant expression folded at load time has exactly the value it has when its operands arrive in variables at run time. Operands of a wrong type or unbound variables are reported as errors, never silently given a value.",
 ["inputs","programs"],"all expressions over all operand values and variable bindings",
 "tests/asl/arithmetic.asl evaluates five expressions",
 [I,PA],[("evaluation",I+": UnaryExpr.evaluate, BinaryExpr.evaluate"),("constant folding",PA+": NumericFoldVisitor, BooleanFoldVisitor, TermFoldVisitor, LogicalFoldVisitor, ConstFoldVisitor"),("precedence",PA+": parse_term .. parse_power")],
 (),["value bound by X = expr; outcome of comparisons"]),
P("C15","The parser accepts exactly the language and builds the tree it describes",
 "For every sequence of tokens the parser either builds the program tree that the grammar assigns to it (beliefs, rules, goals, plans and their parts in textual order) or reports at least one error through the normal error channel; it never accepts a malformed program, rejects a well-formed one, loses a part of it, or fails in any other way.",
 ["inputs"],"all token sequences",
 "the tests parse some thirty well-formed files and four malformed ones",
 [PA],[("recursive descent",PA+": parse_agent, parse_plan, parse_body_formula, parse_term, parse_literal, parse_list"),("validation",PA+": validate")],
 (),["tree returned by agentspeak.parser.parse, or AggregatedError"]),
P("C16","Tokens partition the source exactly, with true positions",
 "Tokenising any text yields, in order, exactly the lexical elements of the text outside white space and comments: each token is classified by its spelling, carries the line and column range where precisely that spelling stands, and nothing outside comments and white space is dropped without an error naming its position. Layout, tabs, line breaks and comments in any style between tokens never change the tokens.",
 ["inputs"],"all source texts",
 "the tests contain a few comments and literals; boundaries between adjacent tokens, comments and strings combine without bound",
 [L],[("tokenizer",L+": tokenize, TokenType")],(),["TokenInfo sequence from agentspeak.lexer.tokenize"]),
P("C17","Includes and directives merge programs in place, once per use, and terminate",
 "Including a file has the effect of placing its beliefs, rules, goals and plans at the point of inclusion, resolved relative to the including file and through any number of levels; a begin/end block contributes its contents in place. An inclusion that is circular, however its path is spelled, or whose file is missing is reported as an error and parsing still terminates, while the same file reached twice without a cycle is included twice.",
 ["configurations","inputs"],"all include graphs and path spellings",
 "the only include in the tests is of /dev/null",
 [PA],[("include directive",PA+": parse_agent")],[("included_files","files on the current inclusion path",PA+": parse_agent")],["tree returned by agentspeak.parser.parse, or AggregatedError"]),
P("C18","Standard-library data actions compute their documented results",
 "The built-in actions over terms (list construction and access, length, minimum, maximum, sorting, concatenation, membership, ranges, substring search, type tests, collecting and counting answers, rounding, sums) succeed exactly when their defining relation holds, with every answer once and in order, unify rather than overwrite their result argument, see each answer of a collected query with its own bindings, and leave no binding behind when they fail, are backtracked over, or only collect. Arguments outside their domain are errors.",
 ["inputs","programs"],"all argument terms, belief bases and queries",
 "tests call each action once or twice with fixed arguments and often only print the result",
 [S,X,I],[("actions",S+": _concat, _nth, _sort, _substring, _member, _findall, _count, _range_2, type tests; "+X),("function wrappers",I+": Actions.add_function, add_predicate, add_procedure")],
 (),["variables after the action; enumeration by for"]),
P("C19","Host actions are resolved and called with faithfully converted arguments",
 "A call to an action name and arity runs the implementation registered for exactly that name and arity if there is one, else a variadic one of that name, searching the nearest action set first and then its parents; other names are queries. A function receives its arguments converted as declared, in order, with agent and environment injected where requested, unifies its result with the last argument, a predicate succeeds iff it returns true, a procedure always succeeds, each being called exactly once per execution, and arguments of a wrong type are errors.",
 ["configurations","inputs"],"all registries (chains of action sets), declarations and argument terms",
 "examples/embedded registers one function; resolution and conversion combine without bound",
 [I,R],[("registry",I+": Actions.add, add_function, add_predicate, add_procedure, lookup"),("conversion",I+": _zip_specs, _count_specs"),("compilation",R+": BuildQueryVisitor.visit_literal")],
 [("actions","implementations by name and arity",I+": Actions")],["arguments received by host functions; bindings after the call"]),
P("C20","Failures are reported, stop the agent there, and change nothing else",
 "A statement that fails or raises an error is reported as an error of the run (an aggregated error, a logged message naming the source position, a non-zero exit status of the command line), and no statement after it in that intention has run. The failing statement itself leaves the beliefs and intentions of all other agents and every binding and belief established before it intact; a program that loads with errors is not run.",
 ["programs","fault_sequences"],"all programs and every point at which a statement can fail",
 "tests check exit status 0 of correct programs only",
 [R,I],[("error handling in step",R+": Agent.step"),("error log",I+": Log, AggregatedError"),("command line",R+": main")],
 (),["exception of run, log records, beliefs afterwards, exit status"]),
P("C21","Equality and ordering of terms are consistent",
 "Equality of ground terms is an equivalence that coincides with unifiability for terms without annotations, agrees with hashing (equal facts are stored once, different ones separately), ignores the notation of lists, the spelling of numbers and the order of annotations, and never equates a boolean with a number. For terms without annotations, ordering is a strict total order within numbers, strings, booleans, atoms, literals of one signature and lists of comparable elements, consistent with equality; sorting, minimum and maximum agree with it, and other comparisons are errors.",
 ["inputs"],"all pairs and triples of ground terms",
 "no test compares terms across types or checks order axioms; pairs and triples of terms are unbounded",
 [I],[("comparison methods",I+": Literal, LinkedList __eq__ .. __hash__"),("comparison operators",I+": BinaryOp, BinaryExpr.evaluate")],
 (),["== \\== < <= > >= in programs; membership in the belief base"]),
P("C22","The printed form of terms and programs reads back as the same thing",
 "Printing a ground term in its source representation and parsing the result yields an equal term, and printing a parsed program and parsing it again yields the same program: same beliefs, rules, goals, plans, operators, grouping, string contents, annotations and block structure.",
 ["inputs","programs"],"all ground terms and all programs",
 "no test prints and re-parses anything",
 [PA,I],[("printing",PA+": __str__ of the AST classes; "+I+": asl_repr"),("strings",I+": parse_string, asl_repr")],
 (),["str of parsed programs; agentspeak.asl_repr"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p)+"\n")
