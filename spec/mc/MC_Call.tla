------------------------------ MODULE MC_Call ------------------------------
(* Every shape of call of every function, the named arguments in every      *)
(* order: binding one by one fails exactly for the ill-formed shapes and     *)
(* gives each parameter the value the meaning gives it.  Shapes are printed. *)
EXTENDS Signature, TLC, Json

CONSTANTS MaxPos, Foreign, Named2

VARIABLES fn, npos, kws, next, todo, m
vars == <<fn, npos, kws, next, todo, m>>

\* Positional argument i is the value i, a named one its name.
Pos(i) == <<"at", i>>
Shapes(f) ==
  IF f = "query"
  THEN { k \cup x : k \in SUBSET ParamNames(f), x \in { {} } \cup { {y} : y \in Foreign \cup (AllNames \ ParamNames(f)) } }
  ELSE { k \in SUBSET (AllNames \cup Foreign) : Cardinality(k) <= Named2 }

Init == /\ fn \in Functions /\ npos \in 0 .. MaxPos /\ kws \in Shapes(fn)
        /\ next = 1 /\ todo = kws /\ m = BindStart(fn)
Position == next <= npos /\ m' = BindPos(m, next, Pos(next)) /\ next' = next + 1 /\ UNCHANGED <<fn, npos, kws, todo>>
\* Names are taken in any order; a failure is final.
Name == /\ next = npos + 1 /\ todo # {}
        /\ \E n \in todo : m' = BindName(m, n, n) /\ todo' = todo \ {n}
        /\ UNCHANGED <<fn, npos, kws, next>>
End == next = npos + 1 /\ todo = {} /\ m' = BindEnd(m) /\ next' = npos + 2 /\ UNCHANGED <<fn, npos, kws, todo>>
Next == Position \/ Name \/ End
Spec == Init /\ [][Next]_vars

Done == next = npos + 2
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN << <<x, x>> >> \o SeqOf(S \ {x})
Right == Done => /\ m.failed = ~WellFormed(fn, npos, kws)
                 /\ ~m.failed => LET b == Received(fn, [i \in 1 .. npos |-> Pos(i)], SeqOf(kws), "absent")
                                 IN \A i \in DOMAIN Signatures[fn] :
                                      b[Signatures[fn][i].name] = IF m.slots[i] = <<>> THEN "absent" ELSE m.slots[i][1]
\* Nothing is bound to two parameters, and a parameter once bound stays so.
Steady == [][\A i \in DOMAIN m.slots : m.slots[i] # <<>> => m'.slots[i] = m.slots[i]]_vars
Printed == next = 1 /\ todo = kws => PrintT("SCEN " \o ToJson([fn |-> fn, pos |-> npos, kw |-> kws]))
=============================================================================
