---------------------------- MODULE SubtractProof ----------------------------
(***************************************************************************)
(* Subtracting canonical lists of any length: proved by TLAPS.             *)
(* The turns are those of LoopSteps.                                       *)
(* The result list is represented by what matters of it: whether p is in   *)
(* it, where it ends, and whether every interval appended so far was       *)
(* proper and did not touch the one before.                                *)
(***************************************************************************)
EXTENDS LoopSteps, TLAPS

CONSTANTS NA, AL, AR, NB, BL, BR, p

ASSUME Input ==
  /\ NA \in Nat /\ NB \in Nat
  /\ AL \in [1 .. NA -> Nat] /\ AR \in [1 .. NA -> Nat]
  /\ BL \in [1 .. NB -> Nat] /\ BR \in [1 .. NB -> Nat]
  /\ \A k \in 1 .. NA : AL[k] <= AR[k]
  /\ \A k \in 1 .. NB : BL[k] <= BR[k]
  /\ \A j, k \in 1 .. NA : j < k => AR[j] + 1 < AL[k]
  /\ \A j, k \in 1 .. NB : j < k => BR[j] + 1 < BL[k]
  /\ p \in Nat

VARIABLES l,        \* left ends, shortened in place
          i, j,     \* positions
          in,       \* p is in the result
          last,     \* right end of the result, -2 if it is empty
          ok        \* the result is canonical
vars == <<l, i, j, in, last, ok>>

Init == l = AL /\ i = 1 /\ j = 1 /\ in = FALSE /\ last = -2 /\ ok = TRUE

\* What appending does to the three.
Pushed(x) ==
  IF x = <<>> THEN UNCHANGED <<in, last, ok>>
  ELSE /\ in' = (in \/ (x[1][1] <= p /\ p <= x[1][2]))
       /\ last' = x[1][2]
       /\ ok' = (ok /\ x[1][1] <= x[1][2] /\ last + 1 < x[1][1])
Next == \E x :
          SubtractTurn(NA, AR, NB, BL, BR, l, i, j, l', i', j', x) /\ Pushed(x)
Spec == Init /\ [][Next]_vars

InA == \E k \in 1 .. NA : AL[k] <= p /\ p <= AR[k]
InB == \E k \in 1 .. NB : BL[k] <= p /\ p <= BR[k]
LeftRest(a, n) == \E k \in n .. NA : a[k] <= p /\ p <= AR[k]
RightRest(n) == \E k \in n .. NB : BL[k] <= p /\ p <= BR[k]

TypeOK ==
  /\ l \in [1 .. NA -> Nat] /\ i \in 1 .. NA + 1 /\ j \in 1 .. NB + 1
  /\ last \in Int /\ ok \in BOOLEAN /\ in \in BOOLEAN
Shape ==
  /\ \A k \in i + 1 .. NA : l[k] = AL[k]
  /\ \A k \in i .. NA : AL[k] <= l[k] /\ l[k] <= AR[k] /\ last + 1 < l[k]
  /\ ok
Content == (in \/ (LeftRest(l, i) /\ ~RightRest(j))) <=> (InA /\ ~InB)
Inv == TypeOK /\ Shape /\ Content

\* When one of the lists is used up, what is left of the first is appended.
Done == i > NA \/ j > NB
Result ==
  Done =>
    /\ (in \/ LeftRest(l, i)) <=> (InA /\ ~InB)
    /\ ok
    /\ \A k \in i .. NA : l[k] <= AR[k] /\ last + 1 < l[k]
    /\ \A a, b \in i .. NA : a < b => AR[a] + 1 < l[b]

\* The six cases.
Push(a, b) ==
  /\ in' = (in \/ (a <= p /\ p <= b))
  /\ last' = b
  /\ ok' = (ok /\ a <= b /\ last + 1 < a)
Keep == UNCHANGED <<in, last, ok>>
More == i <= NA /\ j <= NB
SkipRight == More /\ BR[j] < l[i] /\ j' = j + 1 /\ UNCHANGED <<l, i>> /\ Keep
TakeLeft == More /\ BR[j] >= l[i] /\ BL[j] > AR[i]
  /\ Push(l[i], AR[i]) /\ i' = i + 1 /\ UNCHANGED <<l, j>>
DropLeft == More /\ BR[j] >= l[i] /\ BL[j] <= AR[i] /\ BL[j] <= l[i] /\ BR[j] >= AR[i]
  /\ i' = i + 1 /\ UNCHANGED <<l, j>> /\ Keep
Shorten == More /\ BR[j] >= l[i] /\ BL[j] <= AR[i] /\ BL[j] <= l[i] /\ BR[j] < AR[i]
  /\ l' = [l EXCEPT ![i] = BR[j] + 1] /\ j' = j + 1 /\ UNCHANGED i /\ Keep
Split == More /\ BR[j] >= l[i] /\ BL[j] <= AR[i] /\ BL[j] > l[i] /\ BR[j] < AR[i]
  /\ Push(l[i], BL[j] - 1) /\ l' = [l EXCEPT ![i] = BR[j] + 1] /\ j' = j + 1 /\ UNCHANGED i
Cut == More /\ BR[j] >= l[i] /\ BL[j] <= AR[i] /\ BL[j] > l[i] /\ BR[j] >= AR[i]
  /\ Push(l[i], BL[j] - 1) /\ i' = i + 1 /\ UNCHANGED <<l, j>>
LEMMA Cases == Next => SkipRight \/ TakeLeft \/ DropLeft \/ Shorten \/ Split \/ Cut
<1> SUFFICES ASSUME Next PROVE SkipRight \/ TakeLeft \/ DropLeft \/ Shorten \/ Split \/ Cut
  OBVIOUS
<1>1. PICK x : SubtractTurn(NA, AR, NB, BL, BR, l, i, j, l', i', j', x) /\ Pushed(x)
  BY DEF Next
<1>2. More BY <1>1 DEF SubtractTurn, More
<1>3. CASE x = <<>>
  <2>1. Keep BY <1>1, <1>3 DEF Pushed, Keep
  <2> QED BY <1>1, <1>2, <1>3, <2>1 DEF SubtractTurn, SkipRight, DropLeft, Shorten, TakeLeft, Split, Cut
<1>4. CASE x = << <<l[i], AR[i]>> >>
  <2>1. Push(l[i], AR[i]) BY <1>1, <1>4 DEF Pushed, Push
  <2> QED BY <1>1, <1>2, <1>4, <2>1 DEF SubtractTurn, SkipRight, DropLeft, Shorten, TakeLeft, Split, Cut
<1>5. CASE x = << <<l[i], BL[j] - 1>> >>
  <2>1. Push(l[i], BL[j] - 1) BY <1>1, <1>5 DEF Pushed, Push
  <2> QED BY <1>1, <1>2, <1>5, <2>1 DEF SubtractTurn, SkipRight, DropLeft, Shorten, TakeLeft, Split, Cut
<1> QED BY <1>1, <1>3, <1>4, <1>5 DEF SubtractTurn

LEMMA InitInv == Init => Inv
  BY Input DEF Init, Inv, TypeOK, Shape, Content, InA, InB, LeftRest, RightRest

\* How the rests change when a position moves on.
LEMMA RightStep == \A n \in 1 .. NB : RightRest(n) <=> (RightRest(n + 1) \/ (BL[n] <= p /\ p <= BR[n]))
  BY Input DEF RightRest
LEMMA LeftStep == \A a, n : n \in 1 .. NA => (LeftRest(a, n) <=> (LeftRest(a, n + 1) \/ (a[n] <= p /\ p <= AR[n])))
  BY Input DEF LeftRest
LEMMA LeftFrom == ASSUME Inv, NEW n \in i .. NA, LeftRest(l, n) PROVE l[n] <= p
<1>1. PICK k \in n .. NA : l[k] <= p /\ p <= AR[k]
  BY DEF LeftRest
<1>2. i \in 1 .. NA + 1 /\ n \in 1 .. NA /\ k \in 1 .. NA
  BY Input DEF Inv, TypeOK
<1>3. l[n] <= AR[n] /\ AL[k] <= l[k]
  BY Input, <1>2 DEF Inv, Shape
<1>4. l[n] \in Nat /\ l[k] \in Nat /\ AR[n] \in Nat /\ AL[k] \in Nat
  BY Input, <1>2 DEF Inv, TypeOK
<1>5. n = k \/ AR[n] + 1 < AL[k]
  BY Input, <1>2
<1> QED BY <1>1, <1>3, <1>4, <1>5, Input
LEMMA LeftAfter == ASSUME Inv, i <= NA, LeftRest(l, i + 1) PROVE AR[i] + 1 < p
<1>1. i \in 1 .. NA
  BY Input DEF Inv, TypeOK
<1>2. PICK k \in i + 1 .. NA : l[k] <= p /\ p <= AR[k]
  BY DEF LeftRest
<1>3. k \in 1 .. NA /\ i < k
  BY <1>1, Input
<1>4. AL[k] <= l[k] /\ l[k] \in Nat /\ AL[k] \in Nat /\ AR[i] \in Nat
  BY <1>1, <1>3, Input DEF Inv, TypeOK, Shape
<1>5. AR[i] + 1 < AL[k]
  BY <1>1, <1>3, Input
<1> QED BY <1>2, <1>4, <1>5, Input
LEMMA RightAfter == ASSUME NEW n \in 1 .. NB, RightRest(n + 1) PROVE BR[n] + 1 < p
<1>1. PICK k \in n + 1 .. NB : BL[k] <= p /\ p <= BR[k]
  BY DEF RightRest
<1>2. k \in 1 .. NB /\ n < k
  BY Input
<1>3. BR[n] + 1 < BL[k] /\ BL[k] \in Nat /\ BR[n] \in Nat
  BY <1>2, Input
<1> QED BY <1>1, <1>3, Input
LEMMA RightFrom == ASSUME NEW n \in 1 .. NB, RightRest(n) PROVE BL[n] <= p
<1>1. PICK k \in n .. NB : BL[k] <= p /\ p <= BR[k]
  BY DEF RightRest
<1>2. k \in 1 .. NB
  BY Input
<1>3. BL[n] \in Nat /\ BR[n] \in Nat /\ BL[k] \in Nat /\ BL[n] <= BR[n]
  BY <1>2, Input
<1>4. n = k \/ BR[n] + 1 < BL[k]
  BY <1>2, Input
<1> QED BY <1>1, <1>3, <1>4, Input

LEMMA ShapeStep == Inv /\ Next => TypeOK' /\ Shape'
<1> SUFFICES ASSUME Inv, Next PROVE TypeOK' /\ Shape'
  OBVIOUS
<1> USE Input DEF Inv, TypeOK, Shape, More, Keep, Push
<1>1. CASE SkipRight BY <1>1 DEF SkipRight
<1>2. CASE TakeLeft BY <1>2 DEF TakeLeft
<1>3. CASE DropLeft BY <1>3 DEF DropLeft
<1>4. CASE Shorten BY <1>4 DEF Shorten
<1>m. ASSUME More PROVE i \in 1 .. NA /\ j \in 1 .. NB /\ l[i] \in Nat /\ AR[i] \in Nat /\ BL[j] \in Nat /\ BR[j] \in Nat
                         /\ l[i] <= AR[i] /\ last + 1 < l[i]
  BY <1>m
<1>n. ASSUME More PROVE \A k \in i + 1 .. NA : k \in 1 .. NA /\ AR[i] + 1 < AL[k] /\ l[k] = AL[k] /\ AL[k] <= AR[k] /\ AL[k] \in Nat /\ AR[k] \in Nat
  BY <1>m, <1>n
<1>5. CASE Split
  <2>1. i \in 1 .. NA /\ j \in 1 .. NB /\ i' = i /\ j' = j + 1 /\ last' = BL[j] - 1
    BY <1>5, <1>m DEF Split
  <2>2. l' = [l EXCEPT ![i] = BR[j] + 1] /\ BR[j] + 1 <= AR[i] /\ BR[j] + 1 \in Nat
    BY <1>5, <1>m DEF Split
  <2>3. l' \in [1 .. NA -> Nat] /\ l'[i] = BR[j] + 1 /\ \A k \in i + 1 .. NA : l'[k] = l[k]
    BY <2>1, <2>2
  <2>4. BL[j] <= BR[j] /\ last' + 1 < l'[i] /\ AL[i] <= l[i] /\ l[i] <= l'[i] /\ last' + 1 <= AR[i]
    BY <1>5, <1>m, <2>1, <2>2, <2>3 DEF Split
  <2>5. TypeOK'
    BY <1>5, <1>m, <2>1, <2>3 DEF Split
  <2>6. ok'
    BY <1>5, <1>m DEF Split
  <2>7. \A k \in i + 1 .. NA : AL[k] <= l'[k] /\ l'[k] <= AR[k] /\ last' + 1 < l'[k]
    BY <1>5, <1>m, <1>n, <2>1, <2>3, <2>4 DEF Split
  <2>8. AL[i] <= l'[i] /\ l'[i] <= AR[i]
    BY <1>m, <2>1, <2>2, <2>3, <2>4, <1>5 DEF Split
  <2>9. \A k \in i .. NA : k = i \/ k \in i + 1 .. NA
    BY <2>1
  <2> QED BY <2>1, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <1>n, <1>5 DEF Split
<1>6. CASE Cut
  <2>1. i \in 1 .. NA /\ j \in 1 .. NB /\ i' = i + 1 /\ j' = j /\ last' = BL[j] - 1 /\ l' = l
    BY <1>6, <1>m DEF Cut
  <2>2. last' <= AR[i] /\ ok' /\ last' \in Int
    BY <1>6, <1>m, <2>1 DEF Cut
  <2>3. \A k \in i + 1 .. NA : last' + 1 < l[k] /\ AL[k] <= l[k] /\ l[k] <= AR[k]
    BY <1>6, <1>m, <1>n, <2>1, <2>2 DEF Cut
  <2>4. i' \in 1 .. NA + 1 /\ in' \in BOOLEAN /\ ok' \in BOOLEAN
    BY <1>6, <2>1 DEF Cut
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, Cases

LEMMA ContentStep == Inv /\ Next => Content'
<1> SUFFICES ASSUME Inv, Next
             PROVE (in' \/ (LeftRest(l', i') /\ ~RightRest(j'))) <=> (in \/ (LeftRest(l, i) /\ ~RightRest(j)))
  BY DEF Inv, Content, InA, InB
<1> DEFINE P == l[i] <= p /\ p <= AR[i]
           Q == BL[j] <= p /\ p <= BR[j]
<1>a. i \in 1 .. NA /\ j \in 1 .. NB
  BY Cases DEF SkipRight, TakeLeft, DropLeft, Shorten, Split, Cut, More, Inv, TypeOK
<1>b. {l[i], AR[i], BL[j], BR[j], p} \subseteq Nat
  BY <1>a, Input DEF Inv, TypeOK
<1>c. l[i] <= AR[i] /\ BL[j] <= BR[j]
  BY <1>a, Input DEF Inv, Shape
<1>d. LeftRest(l, i) <=> (LeftRest(l, i + 1) \/ P)
  BY <1>a, LeftStep
<1>e. RightRest(j) <=> (RightRest(j + 1) \/ Q)
  BY <1>a, RightStep
<1>f. LeftRest(l, i) => l[i] <= p
  BY <1>a, LeftFrom
<1>g. LeftRest(l, i + 1) => AR[i] + 1 < p
  BY <1>a, LeftAfter
<1>h. RightRest(j + 1) => BR[j] + 1 < p
  BY <1>a, RightAfter
<1>i. RightRest(j) => BL[j] <= p
  BY <1>a, RightFrom
<1>s. ASSUME l' = [l EXCEPT ![i] = BR[j] + 1]
      PROVE LeftRest(l', i) <=> (LeftRest(l, i + 1) \/ (BR[j] + 1 <= p /\ p <= AR[i]))
  BY <1>a, <1>s, Input DEF LeftRest, Inv, TypeOK
<1> HIDE DEF P, Q
<1> USE <1>a, <1>b, <1>c, <1>d, <1>e, <1>f, <1>g, <1>h, <1>i DEF P, Q
<1>1. CASE SkipRight BY <1>1 DEF SkipRight, Keep
<1>2. CASE TakeLeft BY <1>2 DEF TakeLeft, Push
<1>3. CASE DropLeft BY <1>3 DEF DropLeft, Keep
<1>4. CASE Shorten BY <1>4, <1>s DEF Shorten, Keep
<1>5. CASE Split BY <1>5, <1>s DEF Split, Push
<1>6. CASE Cut BY <1>6 DEF Cut, Push
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, Cases

LEMMA DoneResult == Inv => Result
  BY Input DEF Inv, TypeOK, Shape, Content, Result, Done, LeftRest, RightRest, InA, InB

THEOREM Safe == Spec => []Result
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. CASE Next BY <2>1, ShapeStep, ContentStep DEF Inv
  <2>2. CASE UNCHANGED vars
    BY <2>2 DEF vars, Inv, TypeOK, Shape, Content, InA, InB, LeftRest, RightRest
  <2> QED BY <2>1, <2>2
<1> QED
  BY InitInv, <1>1, DoneResult, PTL DEF Spec
=============================================================================
