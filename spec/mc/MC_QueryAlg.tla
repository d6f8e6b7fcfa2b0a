----------------------------- MODULE MC_QueryAlg -----------------------------
(* Both ways of answering a query give the specified answer, for every query *)
(* of a small Unicode: Top + 1 code points of which the first NW * BW are in *)
(* the masks, every assignment of NCats categories.                          *)
EXTENDS Algorithms
CONSTANTS Top, NCats, MaxStr
RECURSIVE RunsOfCode(_, _)
RunsOfCode(n, c) ==
  IF c > Top THEN <<>>
  ELSE LET k == (n % NCats) + 1
           rest == RunsOfCode(n \div NCats, c + 1)
       IN IF rest # <<>> /\ rest[1][3] = k
          THEN << <<c, rest[1][2], k>> >> \o Tail(rest)
          ELSE << <<c, c, k>> >> \o rest
MCRuns == [n \in 1 .. NCats ^ (Top + 1) |-> RunsOfCode(n - 1, 0)]
MCCats == 1 .. NCats
Sets == SUBSET Cats
OptSets == { <<>> } \cup { <<x>> : x \in Sets }
Strs == UNION { [1 .. n -> 0 .. Top] : n \in 0 .. MaxStr }
OptStrs == { <<>> } \cup { <<x>> : x \in Strs }

VARIABLES q, done
vars == <<q, done>>
Init ==
  /\ q \in [v : Versions, inc : OptSets, exc : OptSets, ich : {<<>>}, xch : {<<>>},
            min : 0 .. Top, max : 0 .. Top]
  /\ Verdict(q) = "ok"
  /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ \E a, b \in OptStrs : q' = [q EXCEPT !.ich = a, !.xch = b]
Spec == Init /\ [][Next]_vars
AlgOK  == LET A == Answer(q)
          IN /\ TakesMask(q) => FastAlg(q) = A
             /\ \A t \in {0, 2, 9} : SlowAlg(q, t) = A
SelOK  == SelAlg(q) = Selected(q)
TableOK == \A k \in Cats : Table(q.v, k) = Canon({ c \in 0 .. Top : CatOf(q.v, c) = k })
=============================================================================
