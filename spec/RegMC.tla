------------------------------- MODULE RegMC --------------------------------
(***************************************************************************)
(* Resolution as Registry.tla has it over every history of registrations   *)
(* of at most Max implementations in Depth levels, against its declarative *)
(* meaning:                                                                *)
(*   Resolves   what is found is registered for exactly that name and      *)
(*              arity, or for that name and any arity, no nearer level has *)
(*              either, and its level prefers the exact one; nothing is    *)
(*              found only if there is nothing                             *)
(*   Stable     registering further away, or for another name or arity,    *)
(*              changes nothing that was found                             *)
(*   Unique     no level ever holds two of one name and arity              *)
(***************************************************************************)
EXTENDS Registry
CONSTANTS Max, Depth
Nm == {"f", "g"}
Ar == {-1, 0, 1}
VARIABLES chain, n, before, last
Reg(i, nm, a) == [id |-> i, name |-> nm, kind |-> "raw", specs |-> <<>>, arity |-> a, res |-> <<"vals", <<>> >>]
Found(ch) == [x \in Nm \X (0..2) |-> Lookup(ch, x[1], x[2])]
Init == chain = [i \in 1..Depth |-> <<>>] /\ n = 0 /\ before = Found(chain) /\ last = <<>>
Next == n < Max /\ \E i \in 1..Depth, nm \in Nm, a \in Ar :
          LET g == Reg(n + 1, nm, a) IN
          /\ ~RefusedIn(chain[i], g)
          /\ chain' = Add(chain, i, g) /\ n' = n + 1 /\ before' = Found(chain) /\ last' = <<i, g>>
Spec == Init /\ [][Next]_<<chain, n, before, last>>

At(i, nm, k) == {chain[i][j] : j \in InLevel(chain[i], nm, k)}
Resolves ==
  \A nm \in Nm, k \in 0..2 :
    LET g == Lookup(chain, nm, k)
        has(i) == At(i, nm, k) \cup At(i, nm, -1) # {}
    IN IF \A i \in 1..Depth : ~has(i) THEN g = NONE
       ELSE LET i == CHOOSE i \in 1..Depth : has(i) /\ \A j \in 1..(i - 1) : ~has(j)
            IN IF At(i, nm, k) # {} THEN {g} = At(i, nm, k) ELSE {g} = At(i, nm, -1)
Where(g) == CHOOSE i \in 1..Depth : \E j \in 1..Len(chain[i]) : chain[i][j] = g
Stable ==
  last = <<>> \/ \A nm \in Nm, k \in 0..2 :
    LET old == before[<<nm, k>>]  new == Lookup(chain, nm, k)  g == last[2] IN
    IF nm # g.name \/ (g.arity >= 0 /\ g.arity # k) THEN new = old
    ELSE IF old # NONE /\ Where(old) < last[1] THEN new = old
    ELSE IF old # NONE /\ Where(old) = last[1] /\ g.arity = -1 THEN new = old
    ELSE new = g
Unique == \A i \in 1..Depth : \A j, k \in 1..Len(chain[i]) :
            chain[i][j].name = chain[i][k].name /\ chain[i][j].arity = chain[i][k].arity => j = k
=============================================================================
