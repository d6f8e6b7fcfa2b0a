------------------------------ MODULE MC_Query ------------------------------
(* Answer is the canonical list of the declarative Meaning, for every small  *)
(* Unicode (every assignment of categories to code points is a "version"),   *)
(* every category selection, range and pair of character lists.  Also the    *)
(* laws that relate answers to each other (properties C02-C05).              *)
EXTENDS QueryModel, FiniteSetsExt
CONSTANTS Top, NCats, MaxStr
RECURSIVE RunsOfCode(_, _)
\* version number n encodes an assignment in base NCats; runs are maximal
RunsOfCode(n, c) ==
  IF c > Top THEN <<>>
  ELSE LET k == (n % NCats) + 1
           rest == RunsOfCode(n \div NCats, c + 1)
       IN IF rest # <<>> /\ rest[1][3] = k
          THEN << <<c, rest[1][2], k>> >> \o Tail(rest)
          ELSE << <<c, c, k>> >> \o rest
MCRuns == [n \in 1 .. NCats ^ (Top + 1) |-> RunsOfCode(n - 1, 0)]
MCCats == 1 .. NCats
Sets == SUBSET Cats
OptSets == { <<>> } \cup { <<x>> : x \in Sets }
Strs == UNION { [1 .. n -> 0 .. Top] : n \in 0 .. MaxStr }
OptStrs == { <<>> } \cup { <<x>> : x \in Strs }

VARIABLES q, done
vars == <<q, done>>
Init ==
  /\ q \in [v : Versions, inc : OptSets, exc : OptSets, ich : {<<>>}, xch : {<<>>},
            min : 0 .. Top, max : 0 .. Top]
  /\ Verdict(q) = "ok"
  /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ \E a, b \in OptStrs : q' = [q EXCEPT !.ich = a, !.xch = b]
Spec == Init /\ [][Next]_vars

A == Answer(q)
AnswerOK == LET M == Meaning(q) IN A = Canon(M) /\ Canonical(A, MaxCP) /\ Points(A) = M

Plain(x) == [x EXCEPT !.ich = <<>>, !.xch = <<>>]
Whole(x) == [Plain(x) EXCEPT !.min = 0, !.max = MaxCP]
\* C03: restricting the range is clamping
ClampLaw == Answer(Plain(q)) = Clamp(Answer(Whole(q)), q.min, q.max)
\* C04: characters on top of the plain answer
CharLaw == Points(A) = (Points(Answer(Plain(q))) \cup OptSet(q.ich)) \ OptSet(q.xch)
\* C05: a selection and its complement partition the range; unions distribute
SetLaw ==
  LET With(S) == Points(Answer([Plain(q) EXCEPT !.inc = <<S>>, !.exc = <<>>]))
      S == Selected(q)
  IN /\ Points(Answer(Plain(q))) = With(S)
     /\ With(S) \cap With(Cats \ S) = {}
     /\ With(S) \cup With(Cats \ S) = q.min .. q.max
     /\ With(S) = UNION { With({k}) : k \in S }
     /\ With(S) = Points(Answer([Plain(q) EXCEPT !.inc = <<>>, !.exc = <<Cats \ S>>]))
\* The single-code-point sweep used by the conformance checks
SinglesLaw == Answer(Plain(q)) =
  Canon({ c \in q.min .. q.max : Answer([Plain(q) EXCEPT !.min = c, !.max = c]) = << <<c, c>> >> })
=============================================================================
