------------------------------ MODULE MC_Runs ------------------------------
(* Runs of set bits, word by word, out of every mask; the bits of a range.   *)
(* The masks are printed for replay: bit 0 of a word stands for its first    *)
(* bit, the last for its last, the others for parts of what is between.      *)
EXTENDS Algorithms, Json
CONSTANTS Emit
MCRuns == << << <<0, MaxCP, 1>> >> >>
VARIABLES mask, m, pc
vars == <<mask, m, pc>>
Init == /\ mask \in [Word -> SUBSET Bit]
        /\ m = RunsStart(mask) /\ pc = "loop"
Turn == pc = "loop" /\ ~RunsDone(m) /\ m' = RunsStep(m) /\ UNCHANGED <<mask, pc>>
End  == pc = "loop" /\ RunsDone(m) /\ pc' = "done" /\ UNCHANGED <<mask, m>>
Next == Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Below(c) == { x \in MaskPoints(mask) : x < c }
\* Everything before the remaining bits has been read.
LoopInv ==
  LET got == Points(RunsResult(m))
      todo == { m.word * BW + x : x \in m.rem } \cup { x \in MaskPoints(mask) : x >= (m.word + 1) * BW }
  IN /\ got \cup todo = MaskPoints(mask) /\ got \cap todo = {}
     /\ \A x \in got, y \in todo : x < y
     /\ Canonical(RunsResult(m), Bound) \/ RunsResult(m) = <<>>
DoneInv == pc = "done" => RunsResult(m) = Canon(MaskPoints(mask))
RangeOK == \A lo, hi \in 0 .. Bound - 1 : lo <= hi => MaskPoints(RangeMask(lo, hi)) = lo .. hi
Ends_ == <>(pc = "done")
Printed == (pc = "done" /\ Emit) =>
  PrintT("SCEN " \o ToJson(<< <<2>> >> \o [w \in 1 .. NW |-> SetToSortSeq(mask[w - 1], LAMBDA x, y : x < y)]))
=============================================================================
