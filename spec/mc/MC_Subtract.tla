---------------------------- MODULE MC_Subtract ----------------------------
(* Subtracting, turn by turn, every set of points from every other one.      *)
(* The pairs are printed for replay (C24).                                   *)
EXTENDS Algorithms, LoopSteps, Json
CONSTANTS Top, Emit
MCRuns == << << <<0, MaxCP, 1>> >> >>
VARIABLES a, b, m, pc
vars == <<a, b, m, pc>>
Lists == { Canon(S) : S \in SUBSET (0 .. Top) }
Init == /\ a \in Lists /\ b \in Lists
        /\ m = SubStart(a, b) /\ pc = "loop"
Turn == pc = "loop" /\ ~SubDone(m) /\ m' = SubStep(m) /\ UNCHANGED <<a, b, pc>>
End  == pc = "loop" /\ SubDone(m) /\ pc' = "done" /\ UNCHANGED <<a, b, m>>
Next == Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Want == Points(a) \ Points(b)
\* What is out is final; what remains on the left, minus what remains on the right, is the rest.
LoopInv ==
  LET rest == SubSeq(m.right, m.j, Len(m.right))
  IN /\ Points(m.out) \cup (Points(SubRest(m)) \ Points(rest)) = Want
     /\ Canonical(m.out, Top)
     /\ \A x \in Points(m.out), y \in Points(SubRest(m)) : x < y
     /\ Canonical(SubRest(m), Top)
     /\ \A i \in DOMAIN SubRest(m) : SubRest(m)[i][1] <= SubRest(m)[i][2]
DoneInv == pc = "done" => SubResult(m) = Canon(Want) /\ SubAlg(a, b) = Canon(Want)
Left_ == (Len(m.left) - m.i) + (Len(m.right) - m.j)
Shrinks == [][pc' = "loop" => Left_' < Left_]_vars
\* Every turn is one of those the proof (proofs/SubtractProof.tla) is about.
Proved ==
  [][Turn => /\ m.out = SubSeq(m'.out, 1, Len(m.out))
             /\ SubtractTurn(Len(a), Rights(m.left), Len(b), Lefts(b), Rights(b),
                             Lefts(m.left), m.i, m.j, Lefts(m'.left), m'.i, m'.j,
                             SubSeq(m'.out, Len(m.out) + 1, Len(m'.out)))
             /\ Rights(m'.left) = Rights(m.left) /\ m.right = b]_vars
Ends_ == <>(pc = "done")
Printed == (pc = "done" /\ Emit) => PrintT("SCEN " \o ToJson(<< <<1, Len(a)>> >> \o a \o b))
=============================================================================
