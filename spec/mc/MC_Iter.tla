------------------------------- MODULE MC_Iter -------------------------------
(***************************************************************************)
(* Iterators over interval sets (property C10): every history of Depth     *)
(* steps from both ends, with skipping and copying, over sets of different *)
(* shapes.  Ghost variables record what each iterator has produced or      *)
(* skipped; the invariants say that together with what remains this is     *)
(* every member exactly once.  Histories are printed for replay.           *)
(***************************************************************************)
EXTENDS Library, Json
CONSTANTS Depth, Emit, ShapeNumbers

MCRuns == [v \in 1 .. 2 |-> << <<0, MaxCP, 1>> >>]
MCCats == 1 .. 30
MCSlots == 1 .. 2
AllShapes == 0 .. 7
Big == 2147483647

\* The same shapes as in sets.rs.
Shapes == << <<>>, << <<97, 97>> >>, << <<97, 99>> >>, << <<97, 97>>, <<99, 99>> >>,
  << <<0, 1>>, <<3, 3>> >>, << <<1114109, 1114109>>, <<1114111, 1114111>> >>,
  << <<253, 254>>, <<256, 257>>, <<55295, 55295>> >>, << <<65, 65>>, <<67, 68>>, <<70, 70>> >> >>

VARIABLES hist, left, right    \* slot -> set of members gone at the front / at the back
mcvars == <<objs, hist, left, right>>
All == Points(sets[1].iv)

Init == LibInit /\ hist = <<>> /\ left = [h \in Slots |-> {}] /\ right = [h \in Slots |-> {}]

Opened(h) == \E i \in 2 .. Len(hist) : (hist[i][1] = 0 /\ hist[i][2] = h) \/ (hist[i][1] = 5 /\ hist[i][3] = h)

\* First the set (step <<shape>>), then an iterator in slot 1.
Begin ==
  \/ /\ hist = <<>>
     /\ \E i \in ShapeNumbers : PutSet(1, Shapes[i + 1]) /\ hist' = << <<i>> >>
     /\ UNCHANGED <<left, right>>
  \/ /\ Len(hist) = 1
     /\ OpenIter(1, 1) /\ hist' = Append(hist, <<0, 1>>)
     /\ left' = [left EXCEPT ![1] = {}] /\ right' = [right EXCEPT ![1] = {}]

Gone(S, n) == LET k == IF n < Cardinality(S) THEN n ELSE Cardinality(S) IN k
RemainingSet(h) == Points(Rest(its[h]))
FirstOnes(S, n) == { x \in S : Cardinality({ y \in S : y < x }) < n }
LastOnes(S, n)  == { x \in S : Cardinality({ y \in S : y > x }) < n }

Step ==
  /\ Len(hist) >= 2 /\ Len(hist) < Depth + 2
  /\ \/ \E h \in Slots, n \in {1, 2} : Opened(h) /\
          \/ /\ TakeFront(h, n) /\ hist' = Append(hist, <<1, h, n>>)
             /\ left' = [left EXCEPT ![h] = @ \cup FirstOnes(RemainingSet(h), n)] /\ UNCHANGED right
          \/ /\ TakeBack(h, n) /\ hist' = Append(hist, <<2, h, n>>)
             /\ right' = [right EXCEPT ![h] = @ \cup LastOnes(RemainingSet(h), n)] /\ UNCHANGED left
     \/ \E h \in Slots, n \in {0, 1, 2, Big} : Opened(h) /\
          \/ /\ Nth(h, n) /\ hist' = Append(hist, <<3, h, n>>)
             /\ left' = [left EXCEPT ![h] = @ \cup FirstOnes(RemainingSet(h), IF n = Big THEN n ELSE n + 1)]
             /\ UNCHANGED right
          \/ /\ NthBack(h, n) /\ hist' = Append(hist, <<4, h, n>>)
             /\ right' = [right EXCEPT ![h] = @ \cup LastOnes(RemainingSet(h), IF n = Big THEN n ELSE n + 1)]
             /\ UNCHANGED left
     \/ \E h, t \in Slots : h # t /\ Opened(h) /\
          /\ CopyIter(h, t) /\ hist' = Append(hist, <<5, h, t>>)
          /\ left' = [left EXCEPT ![t] = left[h]] /\ right' = [right EXCEPT ![t] = right[h]]

Next == Begin \/ Step
Spec == Init /\ [][Next]_mcvars

OnceOK ==
  \A h \in Slots : Opened(h) =>
    LET R == RemainingSet(h)
    IN /\ left[h] \cup R \cup right[h] = All
       /\ left[h] \cap R = {} /\ right[h] \cap R = {} /\ left[h] \cap right[h] = {}
       /\ \A x \in left[h], y \in R \cup right[h] : x < y
       /\ \A x \in right[h], y \in R : x > y
       /\ Cardinality(R) = Remaining(its[h])

\* What the replies would be, against the ghost view.
ReplyOK ==
  \A h \in Slots : Opened(h) =>
    LET R == RemainingSet(h)
        I == its[h]
    IN /\ \A n \in {0, 1, 2, 3} :
            /\ Points(FrontOf(I, n)) = FirstOnes(R, n)
            /\ Points(BackOf(I, n)) = LastOnes(R, n)
            /\ NthOf(I, n) = IF n < Cardinality(R)
                             THEN << CHOOSE x \in R : Cardinality({ y \in R : y < x }) = n >> ELSE <<>>
            /\ NthBackOf(I, n) = IF n < Cardinality(R)
                             THEN << CHOOSE x \in R : Cardinality({ y \in R : y > x }) = n >> ELSE <<>>
       /\ \A k \in {1, 2, 3} : ToSet(StepsOf(I, k, 20)) =
            { x \in R : Cardinality({ y \in R : y < x }) % k = 0 }
       /\ FrontOf(I, Big) = Rest(I) /\ BackOf(I, Big) = Rest(I)

\* Once exhausted, exhausted for good.
StaysExhausted == [][\A h \in Slots : (Opened(h) /\ Remaining(its[h]) = 0) =>
                       \/ Remaining(its[h])' = 0
                       \/ \E g \in Slots : hist'[Len(hist')] = <<5, g, h>>]_mcvars

Observe(h) == IF Opened(h) THEN << <<6, h>>, <<7, h, 0>>, <<7, h, 1>>, <<8, h>> >> ELSE <<>>
Printed == (Len(hist) = Depth + 2 /\ Emit) => PrintT("SCEN " \o ToJson(hist \o Observe(1) \o Observe(2)))
=============================================================================
