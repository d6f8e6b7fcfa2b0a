------------------------------ MODULE MC_Bubble ------------------------------
(* The normalised order, as computed: pairs of a category and count * N +    *)
(* rank, sorted by exchanging neighbours until a pass changes nothing; then  *)
(* all but the two special ones in that order, and these two at the end.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, MostCount
Items == 1 .. N
VARIABLES count, rank, keyed, idx, swapped, pc, passes
vars == <<count, rank, keyed, idx, swapped, pc, passes>>
Late1 == 1      \* plays Cc
Late2 == 2      \* plays Cs
Init == /\ count \in [Items -> 1 .. MostCount]
        /\ rank \in { f \in [Items -> 0 .. N - 1] : \A a, b \in Items : a # b => f[a] # f[b] }
        /\ keyed = [i \in 1 .. N |-> << i, count[i] * N + rank[i] >>]
        /\ idx = 2 /\ swapped = FALSE /\ pc = "pass" /\ passes = 0
Turn == /\ pc = "pass" /\ idx <= N
        /\ LET p == keyed[idx - 1] q == keyed[idx]
           IN IF p[2] > q[2] THEN keyed' = [keyed EXCEPT ![idx - 1] = q, ![idx] = p] /\ swapped' = TRUE
              ELSE UNCHANGED <<keyed, swapped>>
        /\ idx' = idx + 1 /\ UNCHANGED <<count, rank, pc, passes>>
EndPass == /\ pc = "pass" /\ idx > N
           /\ IF swapped THEN idx' = 2 /\ swapped' = FALSE /\ passes' = passes + 1 /\ UNCHANGED pc
              ELSE pc' = "done" /\ UNCHANGED <<idx, swapped, passes>>
           /\ UNCHANGED <<count, rank, keyed>>
Next == Turn \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Output == SelectSeq([i \in 1 .. N |-> keyed[i][1]], LAMBDA c : c \notin {Late1, Late2}) \o << Late1, Late2 >>
Before(a, b) == count[a] < count[b] \/ (count[a] = count[b] /\ rank[a] < rank[b])
\* Always a rearrangement; after k passes the k largest are in place.
PassInv == /\ { keyed[i] : i \in 1 .. N } = { << i, count[i] * N + rank[i] >> : i \in Items }
           /\ (pc = "pass" /\ idx = 2) =>
                \A i \in 1 .. N : i > N - passes => \A j \in 1 .. i : keyed[j][2] <= keyed[i][2]
DoneInv == pc = "done" =>
  /\ Len(Output) = N /\ ToSet(Output) = Items
  /\ \A i, j \in 1 .. N - 2 : i < j => Before(Output[i], Output[j])
  /\ Output[N - 1] = Late1 /\ Output[N] = Late2
Ends_ == <>(pc = "done")
=============================================================================
