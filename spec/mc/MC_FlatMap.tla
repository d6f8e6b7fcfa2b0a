----------------------------- MODULE MC_FlatMap -----------------------------
(* The iterator as built: the intervals not yet opened, an open interval at  *)
(* the front and one at the back.  It refines the iterator of Library (two   *)
(* positions into the list of members).                                      *)
EXTENDS Library
CONSTANTS Top
MCRuns == << << <<0, MaxCP, 1>> >> >>
MCSlots == {1}
VARIABLES
  list,      \* the set's intervals
  a, b,      \* intervals a .. b of list are not opened yet
  fi, bi,    \* open at the front / back: <<>> (none) or << <<lo, hi>> >>, empty once lo > hi
  last,      \* what the last step returned
  want       \* what it should have returned
vars == <<list, a, b, fi, bi, last, want, objs>>

Empty(i) == i[1] > i[2]
\* A turn at the front: from the open interval, else open the next one, else from the back's.
RECURSIVE FrontTurn(_)
FrontTurn(s) ==
  IF s.fi # <<>> /\ ~Empty(s.fi[1]) THEN [s EXCEPT !.got = << s.fi[1][1] >>, !.fi[1] = << s.fi[1][1] + 1, s.fi[1][2] >>]
  ELSE IF s.a <= s.b THEN FrontTurn([s EXCEPT !.fi = << s.list[s.a] >>, !.a = @ + 1])
  ELSE IF s.bi # <<>> /\ ~Empty(s.bi[1]) THEN [s EXCEPT !.got = << s.bi[1][1] >>, !.fi = <<>>, !.bi[1] = << s.bi[1][1] + 1, s.bi[1][2] >>]
  ELSE [s EXCEPT !.got = <<>>, !.fi = <<>>, !.bi = <<>>]
RECURSIVE BackTurn(_)
BackTurn(s) ==
  IF s.bi # <<>> /\ ~Empty(s.bi[1]) THEN [s EXCEPT !.got = << s.bi[1][2] >>, !.bi[1] = << s.bi[1][1], s.bi[1][2] - 1 >>]
  ELSE IF s.a <= s.b THEN BackTurn([s EXCEPT !.bi = << s.list[s.b] >>, !.b = @ - 1])
  ELSE IF s.fi # <<>> /\ ~Empty(s.fi[1]) THEN [s EXCEPT !.got = << s.fi[1][2] >>, !.bi = <<>>, !.fi[1] = << s.fi[1][1], s.fi[1][2] - 1 >>]
  ELSE [s EXCEPT !.got = <<>>, !.fi = <<>>, !.bi = <<>>]

Now == [list |-> list, a |-> a, b |-> b, fi |-> fi, bi |-> bi, got |-> <<>>]
Set(s) == /\ list' = s.list /\ a' = s.a /\ b' = s.b /\ fi' = s.fi /\ bi' = s.bi /\ last' = s.got

\* Library's iterator goes alongside, in slot 1; want is its reply.
Init ==
  /\ list \in { Canon(S) : S \in SUBSET (0 .. Top) }
  /\ a = 1 /\ b = Len(list) /\ fi = <<>> /\ bi = <<>> /\ last = <<>> /\ want = <<>>
  /\ qs = [h \in Slots |-> Fresh(1)] /\ css = [h \in Slots |-> {}] /\ cis = [h \in Slots |-> {}]
  /\ sets = [h \in Slots |-> SetOf(list)]
  /\ its = [h \in Slots |-> LET S == SetOf(list) IN [iv |-> S.iv, off |-> S.off, a |-> 0, b |-> Count(S)]]
Next == \/ Set(FrontTurn(Now)) /\ TakeFront(1, 1) /\ want' = FirstOf(its[1])
        \/ Set(BackTurn(Now))  /\ TakeBack(1, 1)  /\ want' = LastOf(its[1])
Spec == Init /\ [][Next]_vars
OpenPoints(o) == IF o = <<>> THEN {} ELSE o[1][1] .. o[1][2]
SameReply == last = want
SameRest == /\ Points(Rest(its[1])) = OpenPoints(fi) \cup Points(SubSeq(list, a, b)) \cup OpenPoints(bi)
            /\ Remaining(its[1]) = Cardinality(OpenPoints(fi)) + Cardinality(Points(SubSeq(list, a, b))) + Cardinality(OpenPoints(bi))
=============================================================================
