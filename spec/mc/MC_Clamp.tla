------------------------------ MODULE MC_Clamp ------------------------------
(* Clamping a table to a range, interval by interval, for every list, range  *)
(* and search threshold.                                                     *)
EXTENDS Algorithms, LoopSteps
CONSTANTS Top
MCRuns == << << <<0, MaxCP, 1>> >> >>
VARIABLES s, m, pc
vars == <<s, m, pc>>
Init == /\ s \in { Canon(S) : S \in SUBSET (0 .. Top) }
        /\ \E lo, hi \in 0 .. Top, t \in {0, 2, 3, 99} : lo <= hi /\ m = ClampStart(s, lo, hi, t)
        /\ pc = "loop"
Turn == pc = "loop" /\ ~ClampDone(m) /\ m' = ClampStep(m) /\ UNCHANGED <<s, pc>>
End  == pc = "loop" /\ ClampDone(m) /\ pc' = "done" /\ UNCHANGED <<s, m>>
Next == Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
LoopInv ==
  LET seen == Points(SubSeq(s, 1, m.at - 1)) \cap (m.lo .. m.hi)
  IN Points(m.out) = seen /\ Canonical(m.out, Top)
DoneInv == pc = "done" => m.out = Canon(Points(s) \cap (m.lo .. m.hi)) /\ m.out = Clamp(s, m.lo, m.hi)
\* The search skips only what ends below the range, and every turn is one of those the proof
\* (proofs/ClampProof.tla) is about.
Skips == m.out = <<>> => \A k \in 1 .. m.at - 1 : s[k][2] < m.lo
Proved ==
  [][/\ Turn => /\ m.out = SubSeq(m'.out, 1, Len(m.out))
                /\ ClampTurn(Len(s), Lefts(s), Rights(s), m.lo, m.hi, m.at, m'.at,
                             SubSeq(m'.out, Len(m.out) + 1, Len(m'.out)))
     /\ (pc = "loop" /\ pc' = "done") => ClampEnds(Len(s), Lefts(s), m.hi, m.at)]_vars
Ends_ == <>(pc = "done")
=============================================================================
