----------------------------- MODULE MergeProof -----------------------------
(***************************************************************************)
(* The pass that merges a list sorted by left ends, for lists of every     *)
(* length and intervals of every size: proved by TLAPS.  see LoopSteps. *)
(***************************************************************************)
EXTENDS LoopSteps, TLAPS

CONSTANTS N,        \* length of the list
          IL, IR,   \* its left and right ends
          p         \* any point

ASSUME Input ==
  /\ N \in Nat /\ N > 0
  /\ IL \in [1 .. N -> Int] /\ IR \in [1 .. N -> Int]
  /\ \A k \in 1 .. N : IL[k] <= IR[k]
  /\ \A j, k \in 1 .. N : j <= k => IL[j] <= IL[k]
  /\ p \in Int

VARIABLES l, r, border, index
vars == <<l, r, border, index>>

Init == l = IL /\ r = IR /\ border = 1 /\ index = 2

Extend == MergeExtend(N, l, r, border, index, l', r', border', index')
Move == MergeMove(N, l, r, border, index, l', r', border', index')
Next == Extend \/ Move
Spec == Init /\ [][Next]_vars

Among(a, b, n) == \E k \in 1 .. n : a[k] <= p /\ p <= b[k]

Inv ==
  /\ l \in [1 .. N -> Int] /\ r \in [1 .. N -> Int]
  /\ border \in 1 .. N /\ index \in 2 .. N + 1 /\ border < index
  /\ \A k \in index .. N : l[k] = IL[k] /\ r[k] = IR[k]
  /\ \A k \in 1 .. border : l[k] <= r[k]
  /\ \A k \in 1 .. border - 1 : r[k] + 1 < l[k + 1]
  /\ l[border] <= IL[index - 1]
  /\ Among(l, r, border) <=> Among(IL, IR, index - 1)

\* What the pass leaves behind the border when it is through.
Result ==
  index = N + 1 =>
    /\ \A k \in 1 .. border : l[k] <= r[k]
    /\ \A k \in 1 .. border - 1 : r[k] + 1 < l[k + 1]
    /\ Among(l, r, border) <=> Among(IL, IR, N)

THEOREM InitInv == Init => Inv
  BY Input DEF Init, Inv, Among

THEOREM ExtendInv == Inv /\ Extend => Inv'
<1> SUFFICES ASSUME Inv, Extend PROVE Inv'
  OBVIOUS
<1> USE Input
<1>1. l' = l /\ border' = border /\ index' = index + 1 /\ index \in 2 .. N
  BY DEF Inv, Extend, MergeExtend
<1>2. r' \in [1 .. N -> Int]
  BY DEF Inv, Extend, MergeExtend
<1>3. \A k \in 1 .. N : k # border => r'[k] = r[k]
  BY DEF Inv, Extend, MergeExtend
<1>4. r'[border] >= r[border] /\ r'[border] >= IR[index] /\ (r'[border] = r[border] \/ r'[border] = IR[index])
  BY DEF Inv, Extend, MergeExtend
<1>5. l[border] <= IL[index] /\ l[index] = IL[index] /\ r[index] = IR[index] /\ IL[index] <= r[border] + 1
  <2>1. l[index] = IL[index] /\ r[index] = IR[index]
    BY <1>1 DEF Inv
  <2>2. IL[index - 1] <= IL[index] /\ IL[index - 1] \in Int /\ IL[index] \in Int
    BY <1>1
  <2>3. l[border] \in Int /\ l[border] <= IL[index - 1]
    BY DEF Inv
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Extend, MergeExtend
<1>5a. {l[border], r[border], r'[border], IL[index], IR[index], p} \subseteq Int /\ l[border] <= r[border]
  BY <1>1, <1>2 DEF Inv
<1>6. (l[border] <= p /\ p <= r'[border]) <=> ((l[border] <= p /\ p <= r[border]) \/ (IL[index] <= p /\ p <= IR[index]))
  BY <1>4, <1>5, <1>5a
<1>7. Among(l', r', border') <=> (Among(l, r, border) \/ (IL[index] <= p /\ p <= IR[index]))
  BY <1>1, <1>3, <1>6 DEF Inv, Among
<1>8. Among(IL, IR, index' - 1) <=> (Among(IL, IR, index - 1) \/ (IL[index] <= p /\ p <= IR[index]))
  BY <1>1 DEF Among
<1>9. Among(l', r', border') <=> Among(IL, IR, index' - 1)
  BY <1>7, <1>8 DEF Inv
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>9 DEF Inv

THEOREM MoveInv == Inv /\ Move => Inv'
  BY Input DEF Inv, Move, MergeMove, Among

THEOREM Safe == Spec => []Result
<1>1. Inv /\ [Next]_vars => Inv'
  BY ExtendInv, MoveInv DEF Next, vars, Inv, Among
<1>2. Inv => Result
  BY Input DEF Inv, Result, Among
<1> QED
  BY InitInv, <1>1, <1>2, PTL DEF Spec
=============================================================================
