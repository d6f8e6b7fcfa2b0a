------------------------------ MODULE MC_Merge ------------------------------
(* Merging, turn by turn, of every list of at most Most intervals over       *)
(* 0 .. Top, in every order.  The lists are printed for replay (C24).        *)
EXTENDS Algorithms, LoopSteps, Json
CONSTANTS Top, Most, Emit
MCRuns == << << <<0, MaxCP, 1>> >> >>
Ivs == { <<a, b>> : a, b \in 0 .. Top } \cap { i \in (0 .. Top) \X (0 .. Top) : i[1] <= i[2] }
VARIABLES input, m, pc
vars == <<input, m, pc>>
Init == /\ input \in UNION { [1 .. n -> Ivs] : n \in 0 .. Most }
        /\ m = MergeStart(<<>>) /\ pc = "sort"
Sort == pc = "sort" /\ m' = MergeStart(input) /\ pc' = "loop" /\ UNCHANGED input
Turn == pc = "loop" /\ ~MergeDone(m) /\ m' = MergeStep(m) /\ UNCHANGED <<input, pc>>
End  == pc = "loop" /\ MergeDone(m) /\ pc' = "done" /\ UNCHANGED <<input, m>>
Next == Sort \/ Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* What is behind the border is canonical and stands for what was read so far;
\* what is ahead is untouched and does not start before it.
LoopInv ==
  (pc = "loop" /\ input # <<>>) =>
    LET sorted == SortByLeft(input)
        behind == SubSeq(m.list, 1, m.border)
    IN /\ m.border < m.index /\ m.index <= Len(input) + 1
       /\ Canonical(behind, Top)
       /\ Points(behind) = Points(SubSeq(sorted, 1, m.index - 1))
       /\ SubSeq(m.list, m.index, Len(input)) = SubSeq(sorted, m.index, Len(input))
DoneInv == pc = "done" => MergeResult(m) = Canon(Points(input)) /\ MergeResult(m) = Normal(input, Top) /\ MergeAlg(input) = MergeResult(m)
\* Every turn is one of those the proof (proofs/MergeProof.tla) is about.
Proved ==
  [][Turn => LET n == Len(input)
             IN \/ MergeExtend(n, Lefts(m.list), Rights(m.list), m.border, m.index,
                               Lefts(m'.list), Rights(m'.list), m'.border, m'.index)
                \/ MergeMove(n, Lefts(m.list), Rights(m.list), m.border, m.index,
                             Lefts(m'.list), Rights(m'.list), m'.border, m'.index)]_vars
Ends_ == <>(pc = "done")
Printed == (pc = "done" /\ Emit) => PrintT("SCEN " \o ToJson(<< <<0>> >> \o input))
=============================================================================
