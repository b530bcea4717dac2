"""Scenario texts per property (see scen.py)."""
S = {}

S["C03"] = [r"""
p(1). p(2). q(<<1||2||3>>). q(2).
some :- p(X) & <<q(X)||X > 1||not q(X)>>.
other :- <<q(Y) & Y > 1||p(Y) & not q(Y)||some & p(Y)>>.
!go.
+!go <- if (some & <<some||other||not other>>) { +hit(1) } else { +hit(2) };
  for (p(X) & some & other) { +seen(X) };
  ?<<some||other>>; ?some;
  .count(<<some||other>>, N); .findall(X, both(X), L).
both(X) :- some & p(X) & some & q(X).
""", r"""
p(1). p(2). p(3). q(2). q(3). r(3).
one :- p(X) & q(X) & <<r(X)||X > 2||not r(X)>>.
two :- one & <<one||not one||p(X) & one>>.
!go.
+!go : <<one & two||two & one||one & one>> <- +a; .count(one, N); .count(two, M); +n(N, M); !sub.
+!go <- +b.
+!sub : one <- for (one) { +c }; while (two & not d) { +d }.
+!sub <- +e.
""", r"""
ed(1,2). ed(2,3). ed(3,<<4||5||1>>). ed(1,4).
path(X,Y) :- ed(X,Y).
path(X,Y) :- ed(X,Z) & Z < 4 & X < Z & path(Z,Y).
same(X,X).
ends(X) :- path(<<1||2||Y>>,X) & not ed(X,_).
!go.
+!go <- .findall(Y, path(1,Y), L); .count(path(A,B), N); for (path(2,Q)) { +t(Q) };
  if (path(<<1||X||2>>, <<X||4||3>>)) { +u(X) };
  if (same(F, <<f(G,G)||[1|G]||2>>) & same(G, 3)) { +v(F) }; .findall(E, ends(E), M).
""", r"""
mem(X, [X|_]).
mem(X, [_|T]) :- mem(X, T).
app([], L, L).
app([H|T], L, [H|R]) :- app(T, L, R).
rev([], A, A).
rev([H|T], A, R) :- rev(T, [H|A], R).
len([], 0).
len([_|T], N) :- len(T, M) & N = M + 1.
!go.
+!go <- .findall(X, mem(X, [<<1||a||f(1)>>, 2, <<1||X2>>]), L); ?app([1,2], <<[3]||[]||[Q]>>, A);
  for (app(P, S, [1,2])) { +split(P, S) };
  ?rev([1,<<2||f(Z)>>,3], [], R); ?len([a,b,<<c||[1,2]>>], N);
  if (app(<<[1|T]||[H]||I>>, [3], [1,2,3])) { .print(x) } else { +none };
  for (mem(f(W), [f(1), 2, f(3)])) { +w(W) }.
@keep
""", r"""
mem(X, [X|_]) :- true.
mem(X, [_|T]) :- mem(X, T).
app([], L, L) :- true.
app([H|T], L, [H|R]) :- app(T, L, R).
rev([], A, A) :- true.
rev([H|T], A, R) :- rev(T, [H|A], R).
len([], 0) :- true.
len([_|T], N) :- len(T, M) & N = M + 1.
!go.
+!go <- .findall(X, mem(X, [<<1||a||f(1)>>, 2, <<1||X2>>]), L); ?app([1,2], <<[3]||[]||[Q]>>, A);
  for (app(P, S, [1,2])) { +<<split(P, S)||split(S, P)>> };
  ?rev([1,<<2||f(Z)>>,3], [], R); ?len([a,b,<<c||[1,2]>>], N);
  if (app(<<[1|T]||[H]||I>>, [3], [1,2,3])) { .print(x) } else { +none };
  for (mem(f(W), [f(1), 2, f(3)])) { +w(W) }.
""", r"""
b(1)[p, s(1)]. b(2)[s(2), s(3)]. b(3). c(2)[s(3)]. c(3)[q].
src(X, S) :- b(X)[s(S)].
both(X) :- b(X)[s(S)] & c(X)[<<s(S)||s(T)||q>>].
none(X) :- b(X) & not b(X)[<<p||s(_)||s(2)>>].
!go.
+!go <- for (src(X, S)) { +o(X, S) }; .findall(X, both(X), L); .count(none(X), N);
  .findall(f(A, B), b(A)[<<s(B)||B>>], M); if (b(<<X1||2||1>>)[s(Y), <<s(Z)||p||s(3)>>]) { +y(Y) } else { +no };
  ?<<b(V)[p]||b(V)||c(V)[q]>>; +v(V).
""", r"""
n(1). n(2). n(3). m(2). m(<<3||4>>).
big(X) :- n(X) & X > <<1||2||3>>.
pick(X) :- n(X) & (m(X) | X == 1).
odd(X) :- n(X) & X mod 2 == 1.
neg(X) :- n(X) & not (m(X) | X > 2).
diff(X, Y) :- n(X) & m(Y) & not X == Y & <<X < Y||X > Y||not odd(Y)>>.
!go.
+!go <- for (<<diff(X,Y)||pick(X) & odd(Y)||big(X) & neg(Y)>>) { +d(X,Y) };
  if ((<<n(Z) & m(Z)||m(Z) & not n(Z)||n(Z) & Z > 5>>) | Z = 0) { +z(Z) };
  if (not (n(W) & W > <<2||3>>)) { +w } else { +ww(W) };
  while (n(Q) & not done(Q)) { +done(Q) };
  .findall(X1, pick(X1), L); .findall(X2-1, big(X2), L2) .
""", r"""
k(<<1||2>>, a). k(<<1||2>>, <<b||a||c>>). l(b, 3). l(a, 2). e.
j(X, Z) :- k(X, Y) & l(Y, Z).
j(X, none) :- k(X, Y) & not l(Y, _).
fix(1, Y) :- <<l(a, Y)||k(_, Y)>>.
fix(f(X), [X|T]) :- <<k(X, _) & T = []||l(_, X) & k(T, _)>>.
both(X, X) :- k(X, _).
any(_, Y) :- l(Y, _).
!go.
+!go <- .findall(p(X,Y), j(X,Y), L); .findall(Y, fix(1,Y), L1); .findall(Y, fix(<<f(Z)||f(1)||Q>>, Y), L2);
  for (both(A, <<B||1||A||2>>)) { +bb(A) }; if (both(C, D) & <<C == 2||D > 1||C = D>>) { +cd(C, D) };
  ?any(<<1||W||x>>, V); .findall(U, any(U, _), L3); .count(any(_, b), N).
""", r"""
f(1, [2, 3]). f(g(1), h). f([], g(<<1||2>>)).
un(X, X).
sw(f(A, B), f(B, A)).
t(X) :- f(X, Y) & un(<<Y||[_|_]||g(_)>>, <<[H|T]||g(H)||Y>>).
!go.
+!go <- for (f(<<g(X)||X||[X|_]>>, <<Y||[Y|_]||g(Y)>>)) { +o(1) };
  if (sw(f(1, P), f(Q, R))) { if (P = <<2||Q||R>>) { +pq } else { +np } };
  if (un(S, f(T)) & un(T, <<1||S2>>) & un(S2, 5)) { +st(S) }; .findall(Z, t(Z), L);
  if (un([A1, B1|C1], <<[1, 2]||[1|D1]||[1, 2, 3]>>)) { .length(<<[A1, B1]||[1, A1, C1]>>, N) }.
""", r"""
a(1). a(2).
cnt(N) :- .count(a(_), N).
all(L) :- .findall(X, a(X), L).
mx(M) :- all(L) & .max(L, M).
gt(X, N) :- a(X) & .count(a(_), C) & N = C - X.
lazy(X) :- .member(X, [3, 2, <<1||5||a>>]) & <<a(X)||not a(X)>>.
!go.
+!go <- ?cnt(N); +a(<<4||2||N>>); ?cnt(M); ?all(L); ?mx(K); for (gt(X, Y) & <<Y > 0||X > Y||not X == Y>>) { +g(X, Y) };
  .findall(Z, lazy(Z), Q); -a(<<1||9||M>>); .count(lazy(_), R); ?cnt(R2).
""", r"""
v(1). v(2). w(2). w(3).
!go.
!go2.
+!go : v(X) & w(Y) & <<X + Y > 4||X == Y||Y - X > 1>> & (<<v(Y)||w(X)||not w(X)>> | Z = 7) <- +r(X, Y).
+!go <- +none.
+!go2 : (v(X) | w(X)) & (<<X > 2||X == 3||not v(X)>>) <- for (v(A) | w(A)) { +s(A) };
   for ((v(B) & w(B)) | (w(B) & not v(B))) { +u(B) }; .count((v(_)), N); if (v(1) | v(C)) { +c }.
+!go2.
"""]

S["C04"] = [r"""
c(0). c(<<1||5>>). n(3).
!go.
+!go <- -+c(<<2||n(1)||"0"||0>>); ?c(X); -+c(<<X + 1||-X||- X * 2||X * (X + 1)>>); ?n(Y); -+n(<<Y - 1||-Y||-(Y + 1)>>);
  -+n(<<-Y||Y>>); -+two(<<-Y||Y>>, <<Y + 1||Y||Z>>); -+two(Y, 1); -+two(<<-Y||1>>, -1); +c(-1); -+c(<<-Y||-1||-X>>).
""", r"""
pos(f(1), 2). pos(f(2), 3). pos(g(1), 2).
!go.
+!go <- X = <<1||2>>; -+pos(f(<<X||X + 1||-X||Y>>), <<4||X||-X||Z>>); -+pos(<<f(1)||g(X)||[X, -X]>>, 2); -+pos([X, <<-X||X + 1>>], 7);
  -+pos([X|<<[1]||[-X]||Q>>], 8).
+!go2 <- -+pos(_, 1); -+pos(X, X).
@call 0 +! go2
""", r"""
b(1)[p, s(1)]. b(1)[s(2)]. b(2). b(3)[q].
!go.
+!go <- <<-b(1)[p]||-b(1)||-b(1)[s(X)]||-b(X)[s(2)]||-b(1)[z]>>; +b(<<1||2>>)[p, <<s(1)||q>>]; +b(1)[s(1), p]; -+b(2)[<<p||s(3)>>];
  <<.abolish(b(_))||.abolish(b(1)[p])||.abolish(b(X))||-b(_)[q]||.abolish(b(_)[s(_)])||.abolish(_)>>;
  -b(<<2||3||Y>>); .count(b(_), N); .count(b(_)[s(_)], M).
""", r"""
d(1). d(true). d("1"). d(0). d(false). d(<<1||[]||"">>). d(f(1)). d(f(<<true||1||"1">>)). d([1]). d(1, 1).
!go.
+!go <- .count(d(_), N); -d(<<1||true||f(1)||"1">>); +d(<<0||false||1||true>>); <<-+d(<<1||true||7>>)||.abolish(d(true))||.abolish(d(0))||-d(f(X))||.abolish(d(1))>>;
  .count(d(1), A); .count(d(true), B); .count(d(f(_)), C); -d(_).
""", r"""
e(1). e(2).
+e(X) <- +seen(X).
-e(X) <- +gone(X).
!go.
+!go <- +e(<<1||3>>); +e(1); -e(<<1||4||X>>); -e(<<2||X>>); -+e(<<5||1||X>>); -+e(9); .abolish(e(_)); -e(_); +e(7)[p]; +e(7)[p, q]; +e(7); -e(7)[<<q||z||p>>].
""", r"""
k. k[p]. m.
+k[p] <- +kp.
+k <- +kk.
-k <- +nk.
-k[source(<<self||percept>>)] <- +nks.
!go.
+!go <- +k; <<-k||-k[p]||.abolish(k)||-+k>>; +k[q]; -k[<<q||p||s(X)>>]; -m; -m; +m[a(1), a(1)]; +m[a(1)]; -+m; .count(m, N); .count(k, K).
""", r"""
pair(1, 2). pair(1, 3). pair(2, 2). pair(<<1||3>>, 1). pair(f(1), 1).
!go.
+!go <- -pair(X, X); .count(pair(_, _), N); -pair(<<1||Y||f(Y)>>, Y); -pair(<<X||Y||3>>, <<Y||_||Z>>); -+pair(X, <<9||Y||X>>); .abolish(pair(W, W)); .abolish(pair(<<1||_>>, _)).
""", r"""
b(1). c(f(1)). g(1).
!go.
+!go <- +b(<<X||_||f(X)||f(_)>>); +never.
+!go2 <- X = 3; +b(<<f(X)||[X]||X + 1>>); +c([<<X||1>>|[2]]); Y = [X, 4]; +c(Y); -c(<<Y||[3, Z]||[3|T]>>); +c(g(Y, <<T||X>>)).
+!go3 <- +b(1 + <<a||1||"x">>); +after.
@call 0 +! go2
@call 0 +! go3
""", r"""
s(0).
+!inc : s(X) <- -+s(X + 1).
+!dec : s(X) & X > 0 <- -+s(X - 1); +log(X).
+!dec <- +low.
+s(X) : X > 1 <- +high(X).
-s(X) <- +was(X).
!inc.
@call 0 +! inc
@call 0 +! dec
@call 0 +! <<inc||dec>>
@call 0 + s(<<5||0>>)
@call 0 +! dec
@call 0 - s(<<5||_||1||X>>)
""", r"""
a(1). b(2). h(a(1)).
+a(X) : b(Y) <- -b(Y); +b(X).
+b(X) : not a(X) & X < 4 <- +a(X + 1).
-b(X) <- +nb(X).
@call 0 + a(<<2||3>>)
@call 0 - b(<<_||2||X>>)
@call 0 + h(<<a(2)||b(1)>>)
@call 0 - h(a(<<_||1>>))
@call 0 + b(<<1||3>>)[<<p||source(x)>>]
"""]

S["C05"] = [r"""
b(1). b(2). c(2).
!g(<<1||2||3>>).
!g(<<x||f(1)||2>>).
+!g(X) : <<b(X)||c(X)||b(X) & c(X)>> <- +one(X).
+!g(f(X)) : <<b(X)||c(X)>> <- +two(X).
+!g(<<2||X||_>>) : <<not b(2)||c(Y)||b(Y) & Y > 1>> <- +three(Y).
+!g(_) <- +four.
""", r"""
b(1). b(2). c(<<2||3>>).
+e(X)[<<p||s(Y)||source(Y)>>] <- +one.
+e(<<1||X>>) : <<b(X) & c(X)||c(X)||not b(X)>> <- +two.
+e(X) <- +three(X).
-e(X)[<<s(Y)||p>>] <- +gone1.
-e(X) : <<b(X)||c(X)>> <- +gone2(X).
-e(_) <- +gone3.
@call 0 + e(<<1||2||3>>)
@call 0 + e(2)[p]
@call 0 + e(<<1||2>>)[s(<<1||x>>), q]
@call 0 - e(<<1||2||_>>)
@call 0 - e(X)[<<p||q||s(Y)>>]
""", r"""
b(1). b(2). known(3).
val(X) :- b(X) & X > 1.
+?val(X) : <<known(X)||b(X)||false>> <- +asked(X).
+?w(X) <- X = <<4||5||f(Y)>>.
+?b(<<9||2||X>>) <- +askedb.
!go.
+!go <- ?val(X); ?w(<<Y||4||f(1)>>); ?b(<<1||9||Z>>); ?known(<<3||Q>>); ?<<b(7)||w(9)||val(1)||b(2)>>; +end.
""", r"""
p(1). p(2). p(3). q(3). q(2).
+!g(X, Y) : p(X) & q(<<X||Y>>) <- +first(X, Y).
+!g(X, X) <- +same(X).
+!g(X, <<Y||f(Y)||[Y]>>) : p(Y) <- +second(X, Y).
+!g(_, _) : <<p(1)||not p(1)>> <- +third.
!go.
+!go <- !g(1, <<1||2||Z>>); !g(<<A||3>>, B); !g(<<C||f(C)>>, <<C||D||f(1)>>); !g(x, [<<1||x>>]).
""", r"""
lvl(<<1||2||3>>).
@l1 +!act : lvl(X) & X > 2 <- +hi.
@l2 +!act : lvl(X) & X > 1 <- +mid; -lvl(_); +lvl(<<1||3>>); !act.
@l3 +!act <- +lo.
+lvl(X) : <<X > 1||X == 1||lvl(Y) & not X == Y>> <- +ch(X).
-lvl(X) <- +ex(X).
!act.
@call 0 +! act
@call 0 + lvl(<<2||4>>)
@call 0 +! act
""", r"""
on(a, b). on(b, c). on(c, table). clear(a).
above(X, Y) :- on(X, Y).
above(X, Y) :- on(X, Z) & above(Z, Y).
+!put(X, Y) : clear(X) & clear(Y) <- -on(X, _); +on(X, Y).
+!put(X, Y) : not clear(<<X||Y>>) & on(Z, <<X||Y>>) <- +blocked(Z).
+!put(X, Y)[<<urgent||source(S)>>] <- +ann(X).
+!put(X, <<table||X>>) <- +tbl(X).
+!put(_, _).
@keep
@call 0 +! put(<<a||b||c>>, <<b||c||table>>)
@call 0 +! put(<<a||b||c>>, <<a||X||table>>)
@call 0 +! put(a, c)[urgent]
""", r"""
m(1, a). m(2, b). m(2, c).
+!t(X)[s(Y)] : m(X, <<Y||Z||a>>) <- +one(X).
+!t(<<X||2>>)[<<p||s(_), p||q>>] <- +two(X).
+!t(X) : m(X, Y) & <<Y == c||not Y == a||m(Z, Y) & Z > X>> <- +three(Y).
+!t(_) <- +four.
-!t(X) <- +fail(X).
+t(X) <- +bel(X).
!go.
+!go <- !t(1)[s(<<a||b>>)]; !t(2)[<<p||s(c), p||q>>]; !t(<<2||1||3>>); +t(1); -t(1); !!t(2)[s(b), q].
""", r"""
x(1).
+x(<<1||2>>) <- +a1.
+x(X) : X > <<1||2>> <- +a2; !chk(X).
+x(X, Y) <- +a3(X, Y).
+!chk(X) : x(X) <- +ok(X).
+!chk(X) : not x(<<X||1||Y>>) <- +nok(X).
+!chk(_) <- +dunno.
-x(X) : not x(X) <- +rm(X).
-x(X) <- +rm2(X).
@call 0 + x(<<2||3>>)
@call 0 + x(1, <<2||x>>)
@call 0 - x(<<1||2||X||_>>)
@call 0 +! chk(<<1||2||f(X)>>)
"""]

S["C06"] = [r"""
!go.
+!go <- !g(X, <<X||Y||1||f(Y)>>); +r(X); !h(<<Z||f(Z)||[Z|T]||X>>); !g(<<A||f(A)>>, <<B||2||A>>).
+!g(X, Y) : <<true||X = 1||Y = 1||X = Y>> <- <<X = 1||X = Y||Y = 2||X = f(1)>>; <<Y = 1||Y = X||true||X = X>>.
+!h(X) : <<true||X = f(1)>> <- <<X = f(1)||X = [1, 2]||Y = X||X = f(Y)>>; !k(<<X||Y>>).
+!k(X) <- <<X = 5||true||X = f(1)||Y = X>>.
""", r"""
!go.
+!go <- !fact(<<3||4||0>>, F); !fib(<<4||3>>, N); !len([a, b, <<c||[d]>>], L); !rev([1, 2, <<3||Q>>], [], R).
+!fact(0, 1).
+!fact(N, F) : N > 0 <- !fact(N - 1, G); F = N * G.
+!fib(N, N) : N < 2.
+!fib(N, F) <- !fib(N - 1, A); !fib(N - 2, B); F = A + B.
+!len([], 0).
+!len([_|T], N) <- !len(T, M); N = M + 1.
+!rev([], A, A).
+!rev([H|T], A, R) <- !rev(T, [H|A], R).
""", r"""
b(1). b(2). b(3).
!go.
+!go <- for (b(X)) { !dbl(X, Y); +d(Y) }; for (b(Q) & <<Q > 1||not Q == 2>>) { !dbl(<<Q||R||1>>, <<R||Q||S>>); !chk(R) };
  I = 0; while (b(Z) & not done(Z)) { +done(Z); !dbl(Z, W); !!late(<<Z||W||V>>) }; !dbl(5, <<10||11||T>>).
+!dbl(X, Y) : <<true||.number(X)>> <- Y = X * 2.
+!chk(X) : <<.ground(X)||true>> <- +c.
+!chk(_).
+!late(X) : .ground(X) <- +l(X).
+!late(X) <- X = 1; +free.
""", r"""
!go.
+!go <- X = <<f(Y)||[Y, Z]||Y>>; !set(Y); +after(<<1||Y>>); !set2(X, <<Y||Z||W>>); !both(<<X||Y>>, <<Y||Z||X>>).
+!set(<<1||X||f(X)>>) <- true.
+!set2(<<f(X)||X||[X|_]>>, <<X||Y>>) : <<true||Y = 1>> <- <<Y = 1||true||Y = X>>.
+!set2(X, Y) <- Y = 3; +alt.
+!both(X, X) <- +same.
+!both(X, Y) <- <<X = Y||Y = 2||true>>; +differ.
""", r"""
e(0).
!go(1).
+!go(X) <- +e(<<X||X + 1>>); !!later(<<X||Y||f(X)>>); Y = 2; +m(1); !sub(<<X||Y||Z>>); -e(<<0||X||W>>); +m(2).
+e(X) : X > 0 <- +in(X); <<-+e(0)||!sub(X)||!!later(X)||?e(Y)>>; +in2(X).
-e(X) <- +out(X); !sub(X).
+!sub(X) <- +s(1); <<X = 1||X = X||Y = X>>; +s(2).
+!later(X) <- +l(1); !sub(<<X||Y>>); +l(2).
@call 0 +! go(<<2||3>>)
@call 0 + e(<<4||1>>)
""", r"""
p(1). p(2).
!go.
+!go <- ?q(<<X||1||f(X)>>); ?q(<<X||Y>>); !t(X, <<Y||X>>); ?r(<<Z||X||[Z]>>, <<X||Z||W>>).
+?q(X) : <<p(X)||true||p(Y) & Y > 1>> <- <<X = 1||true||X = f(3)||Y = X>>.
+!t(X, Y) : <<p(Y)||true||p(X)>> <- <<?q(Y)||X = Y||Y = 1||true>>.
+?r(X, Y) <- <<X = [1]||Y = 2||X = Y||!t(X, Y)>>.
""", r"""
!a(1, R).
!b(<<1||2>>, Q).
+!a(X, R) <- !b(X, S); !b(<<S||X||R>>, T); R = <<S||T||f(S, T)>>.
+!b(X, Y) : X < <<2||3>> <- !c(X, Z); Y = Z.
+!b(X, Y) <- !c(<<Y||W>>, X); Y = <<W||X||1>>.
+!c(X, Y) <- Y = <<X + 1||[X]||g(X, V)||X>>.
""", r"""
!go.
+!go <- !m(L); !n(L, <<[A|B]||X||L>>); !n(<<B||X||L>>, <<[1]||L||X>>); !o([<<L||1>>|T], T).
+!m(L) <- L = [1, <<X||2>>|<<T||[]||[3]>>].
+!n(X, Y) <- <<X = Y||[Y|_] = X||Y = [X]||true>>.
+!n(X, Y) <- +alt.
+!o([X|Y], <<[2]||Z||Y>>) <- <<true||Y = [X]||Z = X>>.
"""]

S["C07"] = [r"""
n(1). n(2). n(3).
!go.
+!go <- while (<<not done||n(2)>>) { ?n(X); <<Y = X||Y = [X]||true>>; +s(X); if (X > 1) { -n(2); +done } else { -n(X) } };
  X = <<7||1>>; +end(X).
""", r"""
go(3).
!go.
+!go <- while (<<not stop||go(N) & N > 0||go(3)>>) { .range(1, I); ?go(N); J = N - 1; +it(N); -+go(J); if (J == <<0||1>>) { +stop } };
  <<I = 5||J = 6||N = 9||true>>; +end.
""", r"""
n(1). n(2). n(3). m(2).
!go.
+!go <- X = <<0||2>>; for (n(<<Y||X>>)) { Z = Y; if (m(Y)) { +in(Y) } else { if (Y > <<2||1>>) { +big(Y) } else { +small(Y) } } };
  for (n(A)) { for (n(B) & <<A < B||m(B)||A == B>>) { +p(A, B) } }; Z = 1; A = <<2||B>>; +end(Z).
""", r"""
n(1). n(2). c(0).
!go.
+!go <- if (n(X) & <<X > 1||X > 5||m(X)>>) { +a(X) } else if (n(X) & <<X == 1||X == 7>>) { +b(X) } else { X = 9; +c1(X) }; +x(X);
  if (<<not n(Y)||n(Y)||true||false>>) { } else { Y = 3 }; <<Y = 4||true>>; if (true) { }; for (n(Q)) { }; +end; while (<<false||n(9)>>) { }; +end2.
""", r"""
n(1). n(2). n(3).
!go.
+!go <- for (n(X)) { <<-n(X)||+n(X + 10)||-n(_)||-+n(0)>>; +v(X); if (X > 40) { .fail } };
  for (.member(Y, [1, <<2||1>>, f(Q)])) { +w(1); <<Q = 3||true||Y = 1||true>> }; +end.
""", r"""
t(0). lim(<<2||3>>).
!go.
+!go <- while (t(X) & lim(L) & X < L & not b(X, _)) { -+t(X + 1); !body(X, Y); +b(X, Y); for (.range(<<2||X||1>>, I)) { if (I == <<1||0||X>>) { +hit(I, X) } else { +miss(I) } } }; +end(<<1||X>>).
+!body(X, Y) : <<X > 0||X == 1>> <- Y = X * 2; while (t(Z) & Z > <<10||2>>) { -t(Z); +t(0) }.
+!body(X, <<Y||0>>).
""", r"""
n(1). n(2).
w(f(1)). w(g(2)). w([3]).
!go.
+!go <- for (w(X) & <<X = f(Y)||X = [Y|_]||(X = f(Y) \| X = g(Y))>>) { if (<<n(Y)||Y > 1||not n(Y)>>) { +y(Y) } };
  for ((n(A) | A = 5) & not (A == <<2||5>>)) { +a(A); B = A }; if (not (n(C) & C > <<1||2>>)) { +nc } else { +cc }; +end.
""".replace("\\|", "|"), r"""
a(1). a(2). b(2). b(3).
!go.
+!go <- if (a(X)) { if (<<b(X)||not b(X)||a(Y) & b(Y)>>) { Z = 1; for (b(W)) { if (W == X) { +eq(W) } else if (a(W)) { +aw(W) } else { +no(W) } } } else { Z = 2; while (a(V) & not u(V)) { +u(V); if (V == 1) { for (a(T)) { +vt(V, T) } } } } } else { +never }; +z(Z); X = <<1||2||X>>.
""", r"""
c(0).
!go.
+!go <- !loop(<<3||2>>); for (c(X) & X > 0) { !loop(X - 1) }; +end.
+!loop(N) : N > 0 <- ?c(X); -+c(X + 1); if (N > 1) { !loop(N - 1) } else { while (c(Y) & Y < <<4||2||6>>) { -+c(Y + 1); Q = Y } }.
+!loop(_).
"""]

S["C08"] = [r"""
!m1. !m2. !m3.
+!m1 <- +a(1); +a(2); !sub(1); +a(3).
+!m2 <- +b(1); !!m3; +b(2); <<!sub(2)||-b(1)||?b(X)>>; +b(3).
+!m3 <- +c(1); +c(2).
+!sub(X) <- +s(X); +s(X + 10).
+<<a(2)||b(1)||s(X)||c(X)>> <- +ev(1); +ev(2).
@call 0 +! m3
@call 0 + <<a(2)||b(1)>>
@call 0 +! <<m1||sub(9)>>
""", r"""
--- a
p(1).
!go.
+!go <- .broadcast(<<tell||untell||achieve>>, p(<<X||1||2||f(X)>>)); +sent(1); .broadcast(<<untell||achieve||untell>>, p(<<Y||X||_>>)); +sent(2).
--- b
p(1)[source(a)]. p(3)[source(a)].
+!p(<<X||3>>) : <<p(X)||true||not p(1)>> <- +got(X); X = 1; +got(X).
+!p(_) <- +other.
+p(X) <- +told(X).
-p(X) <- +lost(X).
--- cc
p(2)[source(a)]. p(5).
+!p(<<X||2>>) : <<p(X)||true||X = 4>> <- +got(X); X = 2; +got(X).
+!p(_) <- +other.
-p(X) <- +lost(X).
""", r"""
--- a
!go. !go2.
+!go <- +x(1); .send(b, achieve, t(1)); +x(2); .send([b, <<a||b>>], achieve, t(<<2||X>>)); +x(3).
+!go2 <- +y(1); .send(b, <<tell||achieve>>, t(3)); +y(2).
+!t(X) <- +own(X).
--- b
!w.
+!w <- +w(1); +w(2); !!t(7); +w(3); !t(8); +w(4).
+!t(X) <- +t1(X); +t2(X); !u(X).
+!u(X) <- +u1; +u2.
+t(X) <- +heard(X); !!u(X); +heard2(X).
@call 1 +! t(9)
@call 0 +! go2
@call 1 + t(4)
""", r"""
q(1). q(2).
!s(1). !s(2). !s(3).
+!s(X) : X < <<2||3>> <- for (q(Y)) { +z(X, Y); !!d(X, Y) }; +e(X).
+!s(X) <- while (q(Y) & not k(Y)) { +k(Y); !d(X, Y) }; <<!!s(1)||-q(1)||true>>; +e(X).
+!d(X, Y) <- +d1(X, Y); +d2(X, Y).
+e(X) : <<X > 1||q(X)>> <- +f1(X); !!d(X, X); +f2(X).
@call 0 +! s(<<1||4>>)
""", r"""
@timing
--- a
!go. !tick(<<2||3>>).
+!go <- +g(1); .wait(<<250||125||500>>); +g(2); .wait("+x(V)", <<250||1000>>); +g(3).
+!tick(N) : N > 0 <- +k(N); .wait(<<125||250>>); .send(b, <<tell||achieve>>, ping(N)); !!tick(N - 1).
+!tick(_) <- +x(1); .broadcast(tell, x(2)).
--- b
!idle.
+!idle <- .wait("+ping(X)"); +woke; .wait("+x(<<X||2>>)", 1000); +done.
+!ping(X) <- +pg(X); .wait(125); +pg2(X).
+ping(X) <- +ph(X).
""", r"""
--- a
v(1).
!go.
+!go <- .send(<<b||[b, cc]||[cc, b]>>, achieve, h(<<X||[X, Y]||1>>)); .send([b, cc], <<untell||unachieve||achieve>>, h(<<X||[X|_]||1>>)); .broadcast(achieve, k); +z.
--- b
h(1)[source(a)]. h(2)[source(a)].
!h(1).
+!h(X) <- +p(1); <<X = 1||X = [1, 2]||true>>; +p(2); !r(X); +p(3).
+!r(X) <- +r(1); +r(2); +r(3).
+!k <- +k1; +k2.
-h(X) <- +rm(X).
--- cc
h(2)[source(a)]. h([1])[source(a)].
!h(2).
+!h(X) <- +p(1); <<X = 2||X = [3, 4]||true>>; +p(2); !r(X).
+!r(X) <- +r(1); +r(2).
+!k <- +k1; +k2.
-h(X) <- +rm(X).
"""]

S["C09"] = [r"""
@timing
!go. !ev.
+!go <- +w(1); .wait("+e(<<X||1||2>>)<<[p]||||[source(S)]||[s(1)]>>"<<, 500||||, 1000>>); +w(2); .wait("<<-e(_)||+!g(X)||+e(3)||+?t(X)>>", <<250||500>>); +w(3).
+!ev <- +e(1); +v(1); +e(2)[<<p||s(1)||q>>]; +v(2); +e(1)[p, s(1)]; -e(<<1||2||X>>); !g(1); +v(3); .wait(<<125||250>>); +e(3)[p]; ?t(1).
+!g(X) <- +in.
+?t(X) <- +tt.
@call 0 + e(<<1||2>>)[<<p||source(z)||s(1)>>]
@call 0 - e(_)
""", r"""
@timing
!a. !b.
+!a <- .wait(<<500||250||0>>); +a(1); .wait(<<125||0||375>>); +a(2); .wait(<<250||500>>); +a(3).
+!b <- .wait(<<250||375||125>>); +b(1); .wait("+a(<<2||X||3>>)"<<, 1000||, 125||>>); +b(2); -a(1).
""", r"""
@timing
--- a
!go.
+!go <- .wait("+m(<<X||2>>)[source(<<b||Y||cc>>)]", <<1000||500>>); +got(1); .wait("-m(X)<<[source(b)]||>>", 1000); +got(2); .wait("+!h(X)[source(<<b||a>>)]", 500); +got(3).
+!h(X) <- +hh(X).
--- b
!go.
+!go <- .wait(<<125||250>>); .send(a, tell, m(1)); .wait(<<125||0>>); .send(a, tell, m(2)); .send(a, untell, m(<<1||X||2>>)); .wait(125); .send(a, achieve, h(1)).
--- cc
!go.
+!go <- .wait(<<125||250>>); .send(a, tell, m(<<2||1>>)); .wait(250); .broadcast(<<tell||untell>>, m(<<3||2||X>>)); .send([a, b], tell, x).
""", r"""
@timing
n(1). n(2).
!go. !other.
+!go <- for (n(X)) { .wait("+e(X)", <<250||500>>); +g(X) }; while (not stop) { .wait(<<125||250>>); +t(1); +stop }; if (n(Y)) { .wait("-n(<<1||Y||2>>)", 500); +i(Y) }; !sub(Z); +end(Z).
+!sub(Z) <- .wait(<<125||"+e(f(Q))", 250||"+e(2)", 125>>); Z = <<1||2>>.
+!other <- .wait(125); +e(<<1||2||f(1)>>); .wait(125); +e(<<2||3||f(2)>>); -n(<<1||2>>); +e(7).
@call 0 + e(<<1||f(3)>>)
@call 0 - n(2)
""", r"""
@timing
!a. !b. !c.
+!a <- .wait("+k"); +a1; .wait("+k[p]", <<500||125>>); +a2.
+!b <- .wait("+k<<||[p]||[s(X)]>>", 375); +b1; .wait("+z(<<X, X||X, Y||1, _>>)", 500); +b2.
+!c <- .wait(125); +k; .wait(125); +k[<<p||s(1)||q>>]; +z(1, <<1||2>>); +c1; .wait(125); +z(<<2, 2||1, 1||2, 1>>).
@call 0 + k
@call 0 + k[p]
""", r"""
@timing
!a. !b.
+!a <- !w(<<1||2>>); +a1; !!w(2); .wait(<<250||125>>); +a2.
+!w(X) : X > 1 <- .wait("+!w(<<1||Y||2>>)", <<250||125>>); +w1(X).
+!w(X) <- .wait("+?q(<<3||Z>>)", 250); +w2(X).
+!b <- +b1; .wait(<<0||125>>); ?q(3); !w(1); +b2.
+?q(X) <- +qq.
@call 0 +! w(<<1||2>>)
@call 0 +? q(3)
@call 0 -! w(<<1||_>>)
"""]

S["C10"] = [r"""
--- a
p(1). p(2).
!go.
+!go <- .send(<<b||[b, cc]||[b, b]||a||[]||[a, b, cc]>>, <<tell||untell||achieve||unachieve>>, <<p(1)||p(X)||q(1)[s(1)]||q(X)[s(X)]||p(f(X, X))>>); +sent(1);
  ?p(Y); .send(<<b||cc||[cc, b]>>, <<tell||untell||achieve>>, <<p(Y)||q(Y)||p(Y)[s(Y)]||p([Y|T])>>); +sent(2); .broadcast(<<tell||untell||achieve>>, <<p(Y)||p(Z)||p(_)||q(3)>>); +sent(3).
--- b
p(1)[source(a)]. p(1). p(2)[source(cc)]. p(7)[source(a)]. q(2)[source(a), s(2)].
+p(X)[source(S)] <- +heard(X, S).
+q(X)[s(Y)] <- +heardq(X, Y).
-p(X)[source(S)] <- +un(X, S).
-q(X) <- +unq(X).
+!p(X)[source(<<a||S||b>>)] <- +do(X); X = 1; +did(X).
+!p(_) <- +nosrc.
+!q(X) <- +doq.
--- cc
p(2)[source(a)]. p(8). p(9)[source(a)]. q(1)[source(a)].
+p(X) : <<p(8)||not p(2)>> <- +heard(X); .send(<<a||b||[a, b]>>, <<tell||achieve>>, ok(X)).
-p(X) <- +un(X).
+!p(X) <- +do(X); <<X = 2||X = f(1, 1)||true>>.
+!q(X) <- .send(a, tell, ok(X)).
""", r"""
--- a
!go(1).
+!go(N) : N < 3 <- .send(<<b||nobody||[b, nobody]>>, tell, m(N)); +s(N); !go(N + 1).
+!go(_) <- .send(b, <<foo||tell||"tell"||X>>, m(9)); +end.
+m(X)[source(S)] <- +echo(X, S).
--- b
+m(X)[source(<<a||S>>)] <- +got(X); .send(<<a||S||b>>, <<tell||untell||tell>>, <<k(X + 10)||m(Z)||k(S)>>); +ans(X).
+m(X) <- +self(X).
@call 1 + m(5)[source(a)]
""", r"""
--- a
!go.
+!go <- .send(b, achieve, work(1)); .send(b, achieve, work(<<2||X>>)); +x; .send(b, unachieve, work(<<1||_||Y||2>>)); +y; .send(<<b||[b, cc]>>, unachieve, <<sub(Z)||work(Z)||sub(1)||work(_)[p]>>); +z.
--- b
!work(<<3||1>>).
+!work(X) <- +w1(X); !sub(X); +w2(X); +w3(X).
+!sub(X) <- +s1(X); +s2(X); +s3(X); +s4(X).
--- cc
!work(4). !sub(5).
+!work(X) <- +w1(X); !sub(X); +w2(X); +w3(X).
+!sub(X) <- +s1(X); +s2(X); +s3(X).
""", r"""
--- a
v(1).
!go.
+!go <- L = [1, <<X||2>>]; .send(b, <<tell||achieve>>, f(L)); X = 5; +x(1); .send(b, achieve, f(<<[X|T]||L||Q>>)); Q = <<1||T||Q>>; +x(2).
--- b
+!f(X) <- +r(1); <<X = [1, 7]||X = [9|_]||true||Y = X>>; +r(2); .send(a, <<achieve||tell>>, g(<<X||1>>)).
+f(X) <- +t(X).
--- cc
+g(X) <- +no.
""", r"""
--- a
!go.
+!go <- .send(b, tell, fact(<<1||x>>)[<<p||s(1)||source(z)>>]); .send(b, tell, fact(1)); .send(b, tell, fact(1)[p]); .send(b, untell, fact(<<1||_||X>>)<<[p]||||[s(_)]>>); .send(b, untell, fact(1)); .broadcast(untell, fact(<<_||X>>)).
--- b
fact(0). fact(1). fact(1)[source(self)]. fact(2)[source(a), q].
+fact(X)[source(a)] <- +fa(X).
-fact(X)[<<source(a)||p||source(S)>>] <- +ga(X).
-fact(X) <- +gb(X).
--- cc
fact(3)[source(a)]. fact(4)[source(b)].
-fact(X) <- +gb(X).
""", r"""
--- a
cnt(0).
!go.
+!go <- .send(b, achieve, ping(0)).
+!pong(N)[source(S)] : N < <<2||3>> <- -+cnt(N); .send(S, achieve, ping(N + 1)).
+!pong(N) <- .broadcast(tell, over(N)); +over.
--- b
+!ping(N)[source(<<S||a>>)] <- +p(N); .send(<<S||a>>, achieve, pong(N)).
+over(N) <- +b1; .send(<<[a, a]||a>>, <<tell||untell>>, over(N)).
"""]

S["C11"] = [r"""
--- a
!go.
+!go <- +x; .send(b, achieve, g(1)); .send(b, achieve, g(2)); .send(b, unachieve, <<g(1)||g(X)||g(_)||h(X)||h(1)||g(3)||g(X, Y)>>); +y; .send(b, unachieve, <<h(X)||g(2)||k>>); +z.
--- b
!g(3).
+!g(X) <- +g1(X); !h(X); +g2(X); for (.range(2, I)) { +g3(X, I) }; +g4(X).
+!h(X) <- +h1(X); +h2(X); !k; +h3(X).
+!k <- +k1; +k2; +k3.
@call 1 -! <<g(X)||h(2)||k||h(_)>>
@call 1 +! g(4)
""", r"""
@timing
--- a
!go.
+!go <- .wait(<<125||250>>); .send(b, unachieve, <<w(1)||w(X)||v(X)>>); .wait(125); .send(b, unachieve, <<w(_)||v(2)||u>>).
--- b
!w(1). !w(2). !u.
+!w(X) <- +w1(X); !v(X); +w2(X).
+!v(X) <- +v1(X); .wait(<<500||"+e(X)", 500||"+e(1)">>); +v2(X).
+!u <- .wait(375); +e(<<1||2>>); +u2.
@call 1 -! <<v(X)||u||w(2)||v(1)>>
""", r"""
!g(f(1)). !g(f(2)). !g([1, 2]). !g(X).
+!g(X) <- +a(1); +a(2); !s(X, Y); +a(3).
+!s(X, Y) <- +b(1); Y = 1; +b(2); +b(3).
+e(X) <- +e1(X); +e2(X); !s(X, _); +e3(X).
@call 0 -! g(<<f(X)||f(1)||[1|_]||X||_>>)
@call 0 + e(1)
@call 0 -! <<s(f(_), _)||s(X, X)||s(_, 1)||e(1)||g(f(2))>>
@call 0 -! <<s(1, _)||g(X)||s(X, Y)||nope||s(X)>>
""", r"""
n(1). n(2).
!l(1). !l(2).
+!l(X) <- for (n(Y)) { !m(X, Y); +l1(X, Y) }; while (n(Z) & not d(X, Z)) { +d(X, Z); !m(Z, X) }; +l2(X).
+!m(X, Y) <- +m1(X, Y); !!o(X); +m2(X, Y).
+!o(X) <- +o1(X); +o2(X); +o3(X).
@call 0 -! m(<<1, _||_, 2||X, X||X, Y>>)
@call 0 -! o(<<1||X||_>>)
@call 0 -! l(<<1||2||X>>)
""", r"""
--- a
!go.
+!go <- .send([b, cc], achieve, t(<<1||X>>)); .broadcast(achieve, t(2)); .send(<<[b, cc]||[cc, b]||b>>, unachieve, t(<<X||1||_>>)); .send(a, unachieve, <<go||q>>); +after; !q.
+!q <- +q1; .send(a, unachieve, q); +q2; +q3.
--- b
+!t(X) <- +t1; +t2; <<X = 1||!u(X)||X = 2>>; +t3; +t4.
+!u(X) <- +u1; +u2; +u3.
--- cc
+!t(X) <- +t1; !u(X); +t2; +t3.
+!u(X) <- +u1; +u2; +u3.
-!t(X) <- +handled(X).
"""]

S["C13"] = [r"""
--- <<#x:a||b||a1>>
x(1). x(2).
r(X) :- x(X) & X > 1.
!go.
+!go <- .my_name(N); +me(N); -+x(<<3||N>>); .send(a<<1||||2>>, tell, hi(N)); .count(r(_), C); .broadcast(tell, yo).
+hi(X)[source(S)] <- +from(S).
+yo[source(S)] <- +yos(S).
-x(X) <- +gone(X).
--- <<a1||a2||c>>
!go.
+!go <- .my_name(N); +me2(N); .broadcast(<<tell||achieve>>, hi(2)); .send(a, <<tell||achieve||untell>>, <<yo||hi(X)||x(1)>>).
+hi(X) <- +h2(X).
+!hi(X) <- +ah(X).
+yo <- +yo2.
@build <<0 0||0 1 0||1 0 0||0 0 1 0||0 1 0 0 1||1 1 0||1 0 1 0>>
""", r"""
--- a
c(0). l([1, 2]).
!inc. <<!inc.||>>
+!inc : c(X) & X < 4 <- -+c(X + 1); !w(X, Y); +y(Y); ?l(L); -+l([X|L]).
+!w(X, Y) <- Y = f(X, Z); Z = <<1||2||X>>.
+!inc <- +stop.
+c(X) : X > 1 & X < 3 <- .broadcast(tell, big(X)).
+big(X) : not b(X) <- +b(X); !inc.
--- a1
+big(X)[source(S)] <- .send(S, <<achieve||tell>>, <<inc||big(0)||c(5)>>).
+inc <- +i.
+!inc <- +i2.
+c(X) <- +cc(X).
+!c(X) <- +c3.
@build <<0 0||0 1||1 0||0 0 1>>
@call 0 +! inc
@call 1 +! inc
@call 1 - c(_)
""", r"""
--- a
some :- p(X) & q(X).
p(1). p(2). q(2).
!go.
+!go : some <- -q(2); +q(<<1||3>>); if (some & some) { +s } else { +ns }; for (p(X)) { !f(X, Y); +o(Y) }.
+!go <- +no.
+!f(X, Y) : some <- Y = X + 1.
+!f(X, Y) <- Y = X - 1.
@build <<0 0||0 0 0>>
@call 1 + q(1)
@call 0 - p(<<1||X>>)
"""]

S["C13"].append(r"""
--- w
p(1). r(X) :- p(X) & X > 0.
@l1 +!g(X) : p(X) <- +own(X).
+!g(X) <- +other(X).
+new(X) <- +n(X).
--- b
!go.
+!go <- .send(<<w||w1||w2||[w, w2]||[w1]>>, tellHow, "§0"); .send(<<w1||w||[w, w1]>>, <<untellHow, "@l1"||tellHow, "§1"||askHow, "+!g">>); .send(<<[w, w1, w2]||[w1, w2]>>, achieve, g(<<1||2||3>>)); .broadcast(achieve, <<h(1)||g(1)>>);
  .send(<<w||w2||w1>>, <<tellHow, "§1"||untellHow, "@l2"||tellHow, "§0"||untell, p(_)||tell, p(2)>>); .broadcast(tell, new(<<1||2>>)); .broadcast(achieve, g(<<1||2>>)).
+!h(X) <- +hb(X).
+!g(X) <- +gb(X).
--- *
@l2 +!h(X) : <<r(X)||r(Y)||p(X)||true>> <- +told(X); -+p(X + 1); !g(X).
@<<l1||l2>> +new(X) <- +told2(X); ?p(Y); +q(Y).
@build <<0 0 0 1||0 0 1 0||1 0 0 0||0 0 0 1>>
""")

S["C18"] = [r"""
!go(f(1, X), [1, 2|T]). !go2.
+!go(A, B) <- X = <<f(Y)||g(1)[s(Y)]||h[p(Z)]||[Y, 1]||Y||b(f(W)[q])[r(1)]>>; if (.ground(X)) { +g(1) } else { +ng(1) }; <<Y = 1||Z = 1||W = 2||true>>; if (.ground(X)) { +g(2) } else { +ng(2) };
  if (.ground(f(<<X||A||1[||B||g[s(_)]>>))) { +g(3) } else { +ng(3) }; if (.ground([<<1||X||A>>|<<[2]||B||[]||X>>])) { +g(4) }.
+!go2 <- for (.member(<<f(X)||X||[X|Y]||f(X, X)||1||g(f(X), Y)>>, [f(1), 1, f(1, 2), <<f(2)||[3]||g(f(1), 2)>>, [4, 5], f(3, 3), <<Q||f(Q)||1>>])) { +m }; +end.
""".replace("1[||", "1||"), r"""
!go.
+!go <- if (.member(f(X, Y), [f(1, <<2||X>>), f(3), f(<<4||5>>, 6)]) & <<X > 2||X == Y||Y > 2>>) { +m(X) } else { +no };
  if (.member(g(A, A), [g(1, 2), g(<<3||4>>, 3), g(5, 5)])) { +a(A) }; L = [f(1, B), f(C, 2)]; for (.member(f(P, 2), L)) { +p(1) }; if (.member(f(<<9||1>>, Z), L)) { Z = 8 };
  .findall(Q, <<k(Q)||k(f(Q, Q))||k(f(Q, 1))>>, R); .findall(D-<<E||1>>, h(D, E), S).
k(f(1, 2)). k(f(3, 3)). k(f(4, 1)). h(1, 2). h(3, 4).
""".replace(".findall(D-<<E||1>>, h(D, E), S)", ".findall(D-<<E||1>>, h(D, E), S)"), r"""
!go.
+!go <- for (.range(<<3||0||2>>, <<X||1||f(X)||5||2>>)) { +r }; for (.substring(<<"a"||""||"ab">>, <<"aba"||"abab"||"">>, <<P||0||1>>)) { +s }; .length(<<"abc"||[1, X2]||f(1, 2)||[]||"" >>, <<N||3||2>>);
  .concat(<<"a", "b"||[1], [2, 3]||"x", 1||[X3], [X3]>>, <<C||[1, 2|T]||"ab">>); .nth(<<0||1||2>>, [a, <<b||f(1)>>, c], <<D||b||f(E)>>); +end.
""", r"""
n(1). n(2). n(3). m(2, a). m(3, b).
!go.
+!go <- .findall(<<X||f(X)||[X, Y]||1||Z>>, <<n(X)||m(X, Y)||n(9)||m(X, <<a||Z>>)>>, <<L||[A|B]||[]||[A, B, C]>>); .count(<<n(_)||n(X)||m(_, a)||n(5)>>, <<N||3||1||0>>); .sum(<<X1||X1 * 2||1>>, <<n(X1)||m(X1, _)||n(9)>>, <<S||6>>); +end(1).
+!go2 <- .max([1, <<3||2>>, 2], <<M||3>>); .min([<<a||b>>, c], K); .sort([3, <<1||2>>, 2], <<Q||[1|T]>>); .sort([<<a||"x">>, <<b||c>>, f(1)], R); +end(2).
+!go3 <- .floor(<<2.5||3||-1>>, F); .ceil(<<2.5||-3>>, <<C||3>>); .round(<<1.25||2>>, <<R||1>>); .tail([1, 2, <<3||f(1)>>], <<T||[2|U]>>); .my_name(<<W||a||b>>); +end(3).
@call 0 +! go2
@call 0 +! go3
""", r"""
!go.
+!go <- X = <<1||a||"s"||f(1)||[1]||[]||f[p]||true||Y>>; if (.atom(X)) { +at }; if (.literal(X)) { +li }; if (.list(X)) { +ls }; if (.number(X)) { +nu }; if (.string(X)) { +sr }; if (.structure(X)) { +su };
  if (.ground(X)) { +gr }; if (.list([1|<<Z||[2]>>])) { +l2 }; if (.atom(<<b[s(1)]||b(1)||"b">>)) { +a2 }; .findall(Q, .member(Q, [X, 1]), L).
""", r"""
k(1).
!go.
+!go <- .print("a", <<1||X||f(X)>>); <<.member(X, [1|T])||.range(a, X)||.length(1, N)||.nth(5, [1], X)||.nth(a, [1], X)||.max([], M)||.max([1, a], M)||.concat(X, "b", R)||.sort([1|T], R)||.floor(a, F)||.sum(X, k(f), S)||.member(X, a)||.sort([a, 1], R)||.range(2, 5)||.fail>>; +never(1).
+!go2 <- <<.findall(X, k(X), 5)||.count(k(_), 2)||.length([1], 2)||.member(5, [1, 2])||.substring("z", "abc", P)||.concat("a", "b", "c")||.max([1, 2], 1)>>; +never(2).
@call 0 +! go2
"""]

S["C20"] = [r"""
p(1). p(2).
!go. !other.
+!go <- +a(1); <<?p(9)||.fail||!nope||p(X) & X > 5||X > 1||X = Y + 1||+q(X)||.send(zz, tell, x)||.nth(9, [1], X)||!g(1)||false||.send(a, foo, x)||1 < a||.abolish(X + 1)||!!nope||-+q(X)>>; +a(2).
+!g(X) <- +in; <<?p(X + 7)||.fail||!g2(X)||X = 2>>; +never.
+!g2(X) : X > 4 <- +x.
-!go <- +handled.
-!g(X) <- +handledg(X).
+!other <- +o(1); +o(2); +o(3); +o(4); +o(5).
""", r"""
--- a
!go. !two.
+!go <- .send(b, achieve, <<nope(1)||t(1)||u(1)>>); +x; .send(b, <<tell||untell>>, t(<<1||X>>)); +y.
+!two <- +z(1); <<?q(1)||true||.fail>>; +z(2).
--- b
+!t(X) <- +t1; <<?nope(X)||!nope||true>>; +t2.
+!u(X) : <<X > a||X = 1||nope(X)>> <- +u1.
+t(X) : <<1 < a||true||X + a > 1>> <- +tt; <<.fail||true>>; +tt2.
--- cc
!run.
+!run <- +r(1); .send(<<a||b>>, tell, z); +r(2); +r(3).
@call 1 +! <<t(1)||nope||u(2)>>
@call 2 + t(1)
""", r"""
e(0).
+e(X) : X > 0 <- +i(X); <<?nope||.fail||X = X + 1||!sub(X)||true>>; +j(X).
-e(X) <- +k(X); <<?e(X)||true>>; +l(X).
+!sub(X) <- for (.range(2, I)) { if (I > 0) { <<.fail||?e(I)||true>> }; +s(I) }.
+!start : e(X) & <<X > a||X == 0||Y > X>> <- +e(1); +after.
+!start <- +alt.
!start.
@call 0 + e(<<2||1>>)
@call 0 - e(<<0||1||_>>)
@call 0 +! <<start||nope||sub(1)>>
""", r"""
!g(1, R).
+!g(X, 2) <- <<R = X||true||X = 1>>; +x.
+!h(X, Y) <- Y = f(X); +h(X).
!k.
+!k <- !h(1, <<g(Z)||f(2)||f(Z)||2||Q>>); +k1; while (<<a < 1||h(Y) & Y > a||false||Y > 2>>) { +w; .fail }; +k2; for (<<h(A) & A + b > 1||h(A) & .fail||h(A)>>) { +f }; +k3.
""", r"""
b(1). b(<<X||_||f(X)||2>>).
!go.
+!go <- +ok.
""", r"""
b(1).
!go(<<1||X>>).
!<<nope||go(2)||go>>.
+!go(X) <- +ok(X).
"""]

S["C12"] = [r"""
--- a
!go.
+!go <- .send(b, tellHow, "§0"); .send(b, tellHow, "§1"); .send(b, tellHow, "§2"); .send(b, tellHow, "§3"); .send(b, achieve, job(1)); .send(b, achieve, job(2)); +sent;
  .send(<<b||[b]||"b"||[a, b]>>, untellHow, "@<<l1||l2||l3||l||l11||>>"); .send(b, achieve, job(<<1||2||3>>)).
--- b
p(1). p(2).
+!job(X) : X > 5 <- +big(X).
--- *
@l1 +!job(X) : p(X) & X < 2 <- for (p(Y)) { +seen(X, Y) }; +one; !sub(X, R); +r(R).
@l2 +!job(X) : not q(X) <- +q(X); if (X == 2) { +two; +second } else { +three }; !sub(X, R); +r(R).
@l3 +!job(X) <- ?q(Z); +again(X, Z).
@<<l1||l2||l11>> +!sub(X, <<Y||Z>>) <- Y = X + 1; Z = Y * 2; +sub(Y).
""", r"""
--- a
!go.
+!go <- .send(b, tellHow, "§0"); .send(b, tellHow, "§1"); for (.member(X, [1, 2, 3, 4])) { .send(b, achieve, c(X)) }; .send(b, achieve, d(2, [1, 2, 3], "x")).
--- b
p(1). p(2). p(3). q(2)[s(1)].
+!d(_, _, _) : false.
+!c(0) <- +zero.
+!c(X) : X == <<9||2||1>> <- +own(X).
--- *
+!c(X) : <<X > 1 & X < 4||1 < X < 4||not (X == 1 | X == 4)||not X == 1 & p(X)||p(X) | X == 4||(p(X) | X == 4) & X > 1||not (p(X) & X > 1)||p(X) & p(Y) & Y > X | X == 3>> <-
  Y = <<(- X) ** 2||0 - X ** 2||(0 - 2) ** 2 - X||X - 1 - 1||X - (1 - 1)||X / 2 / 2||X / (2 / 2)||(X + 1) * 2||X mod 2 + X div 2||2 ** 3 ** X||(0 - 1) ** X>>; +y(Y); if (Y > 1 | X == 1) { +up } else { if (Y < 0 - 3) { +down } }.
+!d(X, [H|T], S) : q(X)[<<s(1)||s(_)||s(2)>>] & <<S = "x"||S \== "a\"b"||not S = "y">> <- Z = <<"a\"b"||"\\"||"l1\nl2"||"+!g <- a."||"//">>; +d(H, T, Z, <<[X|T]||[X, T]||[[X]|T]||[]||[H, X|T]||f(X, [])>>)[<<n(H)||n(H), m||m(T)>>].
""", r"""
--- a
!go.
+!go <- .send(b, tellHow, "§0"); .send(b, tellHow, "§1"); .send(b, tellHow, "§2"); .send(b, tell, e(1)); .send(b, tell, e(2)); .send(b, untell, e(<<1||2>>)); .send(b, achieve, ask(<<1||2||3>>)); .send(b, untellHow, "@<<l1||l2>>"); .send(b, tell, e(<<3||1>>)); .send(b, untell, e(_)).
--- b
e(7).
+e(X) : X > <<6||1||2>> <- +own(X).
+!ask(X) <- ?t(X, Y); +t(X, Y).
--- *
@<<l1||l2>> +e(X)<<||[source(a)]||[source(S)]||[source(self)]>> <- +got(X); -+last(X); ?last(Z); +z(Z).
@l1 -e(X) : <<last(X)||last(_)||true>> <- -got(_); +lost(X).
@l2 +?t(X, Y) : <<e(X)||not e(X)||X == 3>> <- Y = X * 10.
""", r"""
--- a
r(1). r(2).
!go.
+!go <- .send(b, askHow, "<<+!g||+!g(X)||+!g(1)||+!g(X, Y)||+!g(_)>>"); +asked; for (r(X)) { !g(X) }; .send(b, achieve, g(<<1||2||3>>)); .send(b, askHow, "<<+!g||+!h||+!unknown||-!g||+g||+?g>>"); !g(<<3||2>>); +r(3); +fin.
+!g(X) : X > 2 <- +own(X).
+!h(X) <- +ownh(X).
--- b
r(5). r(1).
@l1 +!g(X) : r(X) <- +first(X); !h(X).
@l2 +!g(X) : X == <<2||1||_>> <- +second(X); !h(X); ?r(Y); +y(Y).
+!g <- +noargs.
+!g(X, Y) <- +two(X, Y).
+?g(X) <- X = 1.
+g(X) <- +ev(X).
-!g(X) <- +rec(X).
+!h(X) <- +h(X).
+!h(X, Y) <- +hh(X, Y).
""", r"""
--- a
!go.
+!go <- .send(b, tellHow, "§2"); .send(b, achieve, pass(<<1||2>>)); +done.
+!pass(_).
--- b
+!w(0) <- +zero.
--- cc
n(3).
+!w(X) : n(X) <- +mine(X).
--- *
+!w(X) : <<X > 0||true||n(Y) & X < Y>> <- +w(X); V = "a \"quoted\" text\\"; +v(V).
@l1 +!twice(X) <- !w(X); .send(cc, tellHow, "§0"); .send(cc, achieve, w(X + 1)); .send(cc, achieve, w(3)).
+!pass(X) <- .send(<<cc||[cc, b]||[b, cc]||b>>, tellHow, "§0"); .send(b, tellHow, "§1"); !twice(X); .send(cc, achieve, w(X)); .send(b, untellHow, "@l1"); .send(b, achieve, twice(X)).
@call 1 +! w(0)
@call 2 +! w(3)
""", r"""
--- a
!go.
+!go <- .send(b, tellHow, "§0"); .send(b, achieve, long(1)); +x1; +x2; .send(b, untellHow, "@l1"); +x3; .send(b, tellHow, "§<<0||1>>"); .send(b, achieve, long(2)); .send(b, tellHow, "§1"); .send(b, achieve, long(3)).
--- b
lim(4).
@<<l1||l2>> +!sub(X) <- +sub(X); +sub2(X).
+!sub(X) <- +other(X).
+!long(X) : X > 9 <- +never.
--- *
@l1 +!long(X) <- +s1(X); +s2(X); !sub(X); +s3(X); +s4(X); if (lim(L) & X < L) { !long(X + 1) }.
@l2 +!long(X) <- +t1(X); !sub(X); while (t(X)) { -t(X) }; +t2(X).
""", r"""
--- a
!go.
+!go <- .send(b, tellHow, "§0"); .send(b, achieve, hold(1)); .send(b, tellHow, "§1"); .wait(<<250||500>>); .send(b, tell, sig(<<1||2>>)); .send(b, askHow, "+!hold(X)"); !hold(<<5||1>>); +over.
+sig(X) <- +asig(X).
--- b
+!hold(X) : X > 7 <- +late.
--- *
+!hold(X) : <<true||not over>> <- +h1(X); .wait("<<+sig(X)||+sig(1)||+sig(_)[source(a)]||-sig(X)||+!g>>", <<1000||250||500>>); +h2(X).
+sig(X) : X == 1 <- .wait(250); +later(X).
@timing
""", r"""
--- a
!go.
+!go <- .send(b, untellHow, "@<<l||l1||l11||m||none||L1>>"); .send(b, achieve, p(1)); .send(b, achieve, q(1)); .send(b, tellHow, "§0"); .send(b, tellHow, "§1"); .send(b, achieve, p(1)); .send(<<b||[b, b]||[b, a]>>, untellHow, "<<@l1||@l||l1||@l2||@>>"); .send(b, achieve, p(2)); .send(b, achieve, q(2)).
@l1 +!p(X) <- +ap(X).
--- b
@l1 +!p(X) : X == <<1||2||_>> <- +p1(X).
@l +!p(X) <- +p2(X).
+!p(X) <- +p3(X).
@l11 +!p(X) <- +p4(X).
@l1 +!q(X) <- +q1(X).
@m +!q(X) <- +q2(X).
+!q(X) <- +q3(X).
--- *
@l1 +!p(X) <- +told1(X).
@l2 +!p(X) <- +told2(X).
""", r"""
--- a
!go.
+!go <- .send(b, <<tellHow||askHow||untellHow>>, <<"no plan"||""||"+!g"||"+!g <- "||"p(1)."||1||x||f(1)||X||["+!g."]||"§0"||"+!unknown"||"@l1"||"+!a <- b. +!c <- d."||"@l."||"!g.">>); +after.
+!go2 <- .send(b, achieve, w(1)); .send(<<b||nobody||[]||a>>, <<tellHow||untellHow||askHow>>, "<<§0||@l1||+!w||+!w(X)>>"); .send(b, achieve, w(2)); !w(3).
+!w(X) : X > 3 <- +big.
--- b
@l1 +!w(X) : X < 2 <- +bw(X).
+!w(X) <- +bw2(X).
--- *
@l1 +!w(X) : X > 1 <- +tw(X).
@call 0 +! go2
@call 1 +! w(1)
""", r"""
--- a
recipe(g, "§0"). recipe(h, "§1"). recipe(g, "§2").
!go.
+!go <- for (recipe(G, T)) { .send(b, tellHow, T); +told(G, T) }; .send(b, achieve, g(1)); ?recipe(<<h||g>>, R); .send(b, tell, recipe(R)); .send(b, achieve, share).
--- b
+!share <- ?recipe(T); .send(cc, tellHow, T); .send(cc, achieve, <<h(1)||g(2)>>).
+!h(X) : X > 3.
--- cc
+!g(X) : X > <<3||1>> <- +mine(X).
+!h(<<X||2>>) : not k(X) <- +k(X).
--- *
+!g(X) : <<X > 0||X > 1||not k(X)>> <- +g(X); !h(X).
+!h(X) <- +h(X).
+!g(_) <- +default.
""", r"""
--- a
!go.
+!go <- .send(<<a||[a, b]||[b, a]>>, tellHow, "§0"); !t(2); .send(<<a||b>>, askHow, "+!t"); !t(1); .send(a, untellHow, "@<<l1||l2>>"); !t(<<2||1>>); .broadcast(<<tell||tellHow||untellHow>>, <<x||"§0">>); +end.
@l2 +!t(1) <- +one.
+!t(X) : X > 5 <- +big.
--- b
+!t(X) <- +bt(X).
--- *
@l1 +!t(X) <- +t(X); if (X > 1) { !t(X - 1) }.
@call 1 +! t(<<1||2>>)
@call 0 +! t(9)
""", r"""
--- a
!go.
+!go <- .send(b, askHow, "+!<<g||h>>"); .send(cc, askHow, "+!g(<<X||_||1>>)"); .send(b, askHow, "+!g(X)"); .send(b, untellHow, "@l1"); !g(1); .send(b, achieve, g(1)); .send(b, askHow, "+!g"); .send(a, untellHow, "@<<l1||l2>>"); !g(2); .send(cc, achieve, g(2)).
+!h(X) <- +ah(X).
--- b
@l1 +!g(X) : X < 2 <- +b1(X); !h(X).
@l2 +!g(X) <- +b2(X); !h(X).
+!h(X) : not hh <- +hh; +b3(X).
+!h(X) <- +b4(X).
--- cc
@l1 +!g(X) : X > 1 <- +c1(X).
@l3 +!g(X) <- +c2(X).
"""]

S["C12"].append(r"""
--- a
!go.
+!go <- .send(b, achieve, g(<<1||2>>)); .send(b, <<untellHow, "@l1"||untellHow, "@l2"||tellHow, "§0">>); .send(b, achieve, g(<<1||2||3>>)); .send(b, <<tellHow, "§1"||tellHow, "§0"||untellHow, "@l2">>); .send(b, tell, e(<<1||2>>));
  .send(b, achieve, g(<<3||2||1>>)); .send(b, <<untellHow, "@l1"||untellHow, "@l2"||untellHow, "@l3">>); .send(b, achieve, g(<<1||2||3>>)); .send(b, tell, e(3)).
--- b
@<<l1||l2>> +!g(<<X||1||2>>) : <<not done(1)||true||X2 = 1>> <- +done(1).
@l1 +!g(<<Y||1||2>>) : <<not done(2)||true>> <- +done(2).
@<<l1||l2||l1[x]>> +!g(<<Z||3||1>>) <- +done(3).
+!g(_) <- +fallback.
@<<l1||l2>> +e(<<X||1>>) <- +ev(1).
@<<l1||l2>> +e(<<X||2>>) <- +ev(2).
+e(_) <- +ev(3).
--- *
@<<l1||l3>> +!g(X) <- +told(1); ?done(Y); +y(Y).
@<<l1||l2>> +!g(X) : X > <<1||2||0>> <- +told(2).
@build <<0 1||1 0>>
""")
