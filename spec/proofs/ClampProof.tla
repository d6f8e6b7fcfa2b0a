----------------------------- MODULE ClampProof -----------------------------
(***************************************************************************)
(* The part of a canonical list inside [lo, hi], for lists of every length:*)
(* skipping by search, the scan, and stopping early.  Proved by TLAPS;     *)
(* MC_Clamp checks that Algorithms!ClampStep takes exactly these steps.    *)
(***************************************************************************)
EXTENDS LoopSteps, TLAPS

CONSTANTS N, L, R, lo, hi, start, p

ASSUME Input ==
  /\ N \in Nat /\ L \in [1 .. N -> Nat] /\ R \in [1 .. N -> Nat]
  /\ \A k \in 1 .. N : L[k] <= R[k]
  /\ \A j, k \in 1 .. N : j < k => R[j] + 1 < L[k]
  /\ lo \in Nat /\ hi \in Nat /\ lo <= hi /\ p \in Nat
\* What the search guarantees, whether it was made or not.
ASSUME Search == start \in 1 .. N + 1 /\ \A k \in 1 .. start - 1 : R[k] < lo

VARIABLES at, in, last, ok
vars == <<at, in, last, ok>>

Init == at = start /\ in = FALSE /\ last = -2 /\ ok = TRUE
Left == ClampLeft(L, lo, at)
Right == ClampRight(R, hi, at)
Done == ClampEnds(N, L, hi, at)
Next == \E x :
  /\ ClampTurn(N, L, R, lo, hi, at, at', x)
  /\ IF x = <<>> THEN UNCHANGED <<in, last, ok>>
     ELSE /\ in' = (in \/ (x[1][1] <= p /\ p <= x[1][2]))
          /\ last' = x[1][2]
          /\ ok' = (ok /\ last + 1 < x[1][1])
Spec == Init /\ [][Next]_vars

Before(n) == \E k \in 1 .. n - 1 : L[k] <= p /\ p <= R[k]
Inside == lo <= p /\ p <= hi
Inv ==
  /\ at \in 1 .. N + 1 /\ in \in BOOLEAN /\ last \in Int /\ ok
  /\ \A k \in at .. N : last + 1 < L[k]
  /\ last <= hi
  /\ in <=> (Before(at) /\ Inside)
Result == Done => (ok /\ (in <=> (Before(N + 1) /\ Inside)))

LEMMA Turn == Next => /\ ~Done /\ at' = at + 1
                      /\ IF Left <= Right
                         THEN in' = (in \/ (Left <= p /\ p <= Right)) /\ last' = Right /\ ok' = (ok /\ last + 1 < Left)
                         ELSE UNCHANGED <<in, last, ok>>
<1> SUFFICES ASSUME Next PROVE /\ ~Done /\ at' = at + 1
                      /\ IF Left <= Right
                         THEN in' = (in \/ (Left <= p /\ p <= Right)) /\ last' = Right /\ ok' = (ok /\ last + 1 < Left)
                         ELSE UNCHANGED <<in, last, ok>>
  OBVIOUS
<1>1. PICK x : /\ ClampTurn(N, L, R, lo, hi, at, at', x)
               /\ IF x = <<>> THEN UNCHANGED <<in, last, ok>>
                  ELSE /\ in' = (in \/ (x[1][1] <= p /\ p <= x[1][2]))
                       /\ last' = x[1][2]
                       /\ ok' = (ok /\ last + 1 < x[1][1])
  BY DEF Next
<1>2. ~Done /\ at' = at + 1 /\ x = IF Left <= Right THEN << <<Left, Right>> >> ELSE <<>>
  BY <1>1 DEF ClampTurn, Done, Left, Right
<1> HIDE DEF Left, Right, Done
<1>3. CASE Left <= Right
  <2>1. x = << <<Left, Right>> >> BY <1>2, <1>3
  <2>2. x # <<>> /\ x[1][1] = Left /\ x[1][2] = Right BY <2>1
  <2> QED BY <1>1, <1>2, <1>3, <2>2
<1>4. CASE ~(Left <= Right)
  <2>1. x = <<>> BY <1>2, <1>4
  <2> QED BY <1>1, <1>2, <1>4, <2>1
<1> QED BY <1>3, <1>4
LEMMA InitInv == Init => Inv
  BY Input, Search DEF Init, Inv, Before, Inside
LEMMA BeforeStep == \A n \in 1 .. N : Before(n + 1) <=> (Before(n) \/ (L[n] <= p /\ p <= R[n]))
  BY Input DEF Before
LEMMA Step == Inv /\ Next => Inv'
<1> SUFFICES ASSUME Inv, Next PROVE Inv'
  OBVIOUS
<1>1. at \in 1 .. N /\ L[at] <= hi /\ at' = at + 1
  BY Turn, Input DEF Inv, Done, ClampEnds
<1>2. {L[at], R[at], lo, hi, p} \subseteq Nat /\ L[at] <= R[at] /\ last + 1 < L[at] /\ last \in Int
  BY <1>1, Input DEF Inv
<1>3. Before(at + 1) <=> (Before(at) \/ (L[at] <= p /\ p <= R[at]))
  BY <1>1, BeforeStep
<1>4. \A k \in at + 1 .. N : R[at] + 1 < L[k] /\ L[k] \in Nat
  BY <1>1, Input
<1>5. in' <=> (Before(at') /\ Inside)
  <2> HIDE DEF Before
  <2>1. CASE Left <= Right BY <1>1, <1>2, <1>3, <2>1, Input, Turn DEF Inv, Inside, Left, Right, ClampLeft, ClampRight
  <2>2. CASE ~(Left <= Right) BY <1>1, <1>2, <1>3, <2>2, Input, Turn DEF Inv, Inside, Left, Right, ClampLeft, ClampRight
  <2> QED BY <2>1, <2>2
<1>6. last' \in Int /\ ok' /\ last' <= hi /\ last' <= R[at] /\ in' \in BOOLEAN
  <2>1. CASE Left <= Right BY <1>1, <1>2, <2>1, Input, Turn DEF Inv, Left, Right, ClampLeft, ClampRight
  <2>2. CASE ~(Left <= Right) BY <1>1, <1>2, <2>2, Input, Turn DEF Inv, Left, Right, ClampLeft, ClampRight
  <2> QED BY <2>1, <2>2
<1>7. \A k \in at' .. N : last' + 1 < L[k]
  BY <1>1, <1>2, <1>4, <1>6
<1>8. at' \in 1 .. N + 1
  BY <1>1, Input
<1> HIDE DEF Before, Inside
<1> QED BY <1>5, <1>6, <1>7, <1>8 DEF Inv
LEMMA DoneResult == Inv => Result
<1> SUFFICES ASSUME Inv, Done PROVE ok /\ (in <=> (Before(N + 1) /\ Inside))
  BY DEF Result
<1>1. CASE at > N BY <1>1, Input DEF Inv
<1>2. CASE at \in 1 .. N /\ L[at] > hi
  <2>1. \A k \in at .. N : L[k] > hi /\ L[k] \in Nat
    <3> SUFFICES ASSUME NEW k \in at .. N PROVE L[k] > hi /\ L[k] \in Nat
      OBVIOUS
    <3>1. k \in 1 .. N /\ (k = at \/ (at < k /\ R[at] + 1 < L[k]))
      BY <1>2, Input
    <3>2. L[at] <= R[at] /\ {L[at], R[at], L[k]} \subseteq Nat
      BY <1>2, <3>1, Input
    <3> QED BY <1>2, <3>1, <3>2, Input
  <2>2. (Before(N + 1) /\ Inside) <=> (Before(at) /\ Inside)
    BY <1>2, <2>1, Input DEF Before, Inside
  <2> QED BY <2>2 DEF Inv
<1> QED BY <1>1, <1>2 DEF Done, ClampEnds

THEOREM Safe == Spec => []Result
<1>1. Inv /\ UNCHANGED vars => Inv'
  BY DEF vars, Inv, Before, Inside
<1> QED
  BY InitInv, Step, <1>1, DoneResult, PTL DEF Spec
=============================================================================
