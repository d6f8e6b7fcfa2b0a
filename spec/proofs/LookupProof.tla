----------------------------- MODULE LookupProof ----------------------------
(***************************************************************************)
(* Positions in an interval set with the table of offsets, for sets of     *)
(* every size.  At enumerates the members in strictly increasing order     *)
(* without leaving any out, IndexOf inverts it, IndexAbove is the first    *)
(* position that is not below: together these say that positions count     *)
(* the smaller members.  Proved by TLAPS; MC_Lookup compares the operators *)
(* with Rank and Nth of Intervals.                                         *)
(***************************************************************************)
EXTENDS LoopSteps, NaturalsInduction, TLAPS

CONSTANTS N, L, R, O
ASSUME Input ==
  /\ N \in Nat /\ L \in [1 .. N -> Nat] /\ R \in [1 .. N -> Nat]
  /\ \A k \in 1 .. N : L[k] <= R[k]
  /\ \A j, k \in 1 .. N : j < k => R[j] + 1 < L[k]
\* Offsets as the constructor computes them, one interval after the other.
ASSUME Offsets ==
  /\ O \in [1 .. N + 1 -> Nat] /\ O[1] = 0
  /\ \A k \in 1 .. N : O[k + 1] = O[k] + (R[k] - L[k] + 1)

Size == O[N + 1]
Member(c) == \E k \in 1 .. N : L[k] <= c /\ c <= R[k]

\* k is where the search ends.
Ends(k, x) == EndsOffset(N, O, k, x)
Below(k, c) == EndsLeft(N, L, k, c)
At(k, x) == AtPos(L, O, k, x)
IndexOf(k, c) == PosOf(L, O, k, c)
Found(k, c) == FoundAt(R, k, c)
IndexAbove(k, c) == PosAbove(L, R, O, k, c)

\* Offsets grow.
LEMMA Grow == \A d \in Nat : \A j \in 1 .. N + 1 : j + d \in 1 .. N + 1 => O[j] + d <= O[j + d]
<1> DEFINE G(d) == \A j \in 1 .. N + 1 : j + d \in 1 .. N + 1 => O[j] + d <= O[j + d]
<1>1. G(0) BY Offsets, Input
<1>2. ASSUME NEW d \in Nat, G(d) PROVE G(d + 1)
  <2> SUFFICES ASSUME NEW j \in 1 .. N + 1, j + (d + 1) \in 1 .. N + 1 PROVE O[j] + (d + 1) <= O[j + (d + 1)]
    OBVIOUS
  <2>1. j + d \in 1 .. N /\ (j + d) + 1 = j + (d + 1) /\ j + d \in 1 .. N + 1
    BY Input
  <2>2. O[j] + d <= O[j + d]
    BY <1>2, <2>1
  <2>3. O[(j + d) + 1] = O[j + d] + (R[j + d] - L[j + d] + 1)
    BY <2>1, Offsets
  <2>4. L[j + d] <= R[j + d] /\ L[j + d] \in Nat /\ R[j + d] \in Nat /\ O[j] \in Nat /\ O[j + d] \in Nat
    BY <2>1, Input, Offsets
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> HIDE DEF G
<1>3. \A d \in Nat : G(d) BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF G

LEMMA Order == \A j, k \in 1 .. N + 1 : j < k => O[j] < O[k]
<1> SUFFICES ASSUME NEW j \in 1 .. N + 1, NEW k \in 1 .. N + 1, j < k PROVE O[j] < O[k]
  OBVIOUS
<1>1. k - j \in Nat /\ k - j >= 1 /\ j + (k - j) = k
  BY Input
<1>2. O[j] + (k - j) <= O[j + (k - j)]
  BY <1>1, Grow
<1> QED BY <1>1, <1>2, Offsets

\* Every position below the size lies in exactly one interval's stretch, so the search ends somewhere.
LEMMA Exists == \A x \in Nat : x < Size => \E k \in 1 .. N : Ends(k, x)
<1> SUFFICES ASSUME NEW x \in Nat, x < Size PROVE \E k \in 1 .. N : Ends(k, x)
  OBVIOUS
<1> DEFINE H(n) == n \in 1 .. N + 1 /\ x < O[n] => \E k \in 1 .. N : Ends(k, x)
<1>1. H(0) OBVIOUS
<1>2. ASSUME NEW n \in Nat, H(n) PROVE H(n + 1)
  <2> SUFFICES ASSUME n + 1 \in 1 .. N + 1, x < O[n + 1] PROVE \E k \in 1 .. N : Ends(k, x)
    OBVIOUS
  <2>1. CASE n = 0 BY <2>1, Offsets
  <2>2. CASE n > 0
    <3>1. n \in 1 .. N /\ n \in 1 .. N + 1 /\ O[n] \in Nat
      BY <2>2, Input, Offsets
    <3>2. CASE x < O[n] BY <3>1, <3>2, <1>2
    <3>3. CASE O[n] <= x BY <3>1, <3>3 DEF Ends, EndsOffset
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1> HIDE DEF H
<1>3. \A n \in Nat : H(n) BY <1>1, <1>2, NatInduction, Isa
<1>4. H(N + 1) BY <1>3, Input
<1> QED BY <1>4, Input DEF H, Size

LEMMA Unique == \A x \in Nat : \A j, k \in 1 .. N : Ends(j, x) /\ Ends(k, x) => j = k
<1> SUFFICES ASSUME NEW x \in Nat, NEW j \in 1 .. N, NEW k \in 1 .. N, Ends(j, x), Ends(k, x), j < k PROVE FALSE
  BY Input
<1>1. j + 1 \in 1 .. N + 1 /\ k \in 1 .. N + 1 /\ (j + 1 = k \/ j + 1 < k)
  BY Input
<1>2. O[j + 1] <= O[k] /\ O[j + 1] \in Nat /\ O[k] \in Nat
  BY <1>1, Order, Offsets
<1> QED BY <1>2 DEF Ends, EndsOffset

\* The code point at a position is a member, ...
THEOREM AtMember == \A x \in Nat, k \in 1 .. N : Ends(k, x) => At(k, x) >= L[k] /\ At(k, x) <= R[k] /\ Member(At(k, x))
<1> SUFFICES ASSUME NEW x \in Nat, NEW k \in 1 .. N, Ends(k, x) PROVE At(k, x) >= L[k] /\ At(k, x) <= R[k]
  BY DEF Member
<1>1. O[k + 1] = O[k] + (R[k] - L[k] + 1) /\ O[k] \in Nat /\ L[k] \in Nat /\ R[k] \in Nat
  BY Offsets, Input
<1> QED BY <1>1 DEF Ends, EndsOffset, At, AtPos

\* ... later positions hold larger ones, ...
THEOREM AtGrows == \A x, y \in Nat, j, k \in 1 .. N : x < y /\ Ends(j, x) /\ Ends(k, y) => At(j, x) < At(k, y)
<1> SUFFICES ASSUME NEW x \in Nat, NEW y \in Nat, NEW j \in 1 .. N, NEW k \in 1 .. N, x < y, Ends(j, x), Ends(k, y)
             PROVE At(j, x) < At(k, y)
  OBVIOUS
<1>1. {O[j], O[k], L[j], L[k], R[j], R[k]} \subseteq Nat
  BY Offsets, Input
<1>2. CASE j = k BY <1>1, <1>2 DEF At, AtPos
<1>3. CASE j < k
  <2>1. At(j, x) <= R[j] /\ At(k, y) >= L[k] BY AtMember
  <2>2. R[j] + 1 < L[k] BY <1>3, Input
  <2>3. At(j, x) \in Int /\ At(k, y) \in Int BY <1>1 DEF At, AtPos
  <2> QED BY <2>1, <2>2, <2>3, <1>1
<1>4. CASE k < j
  <2>1. k + 1 \in 1 .. N + 1 /\ j \in 1 .. N + 1 /\ (k + 1 = j \/ k + 1 < j)
    BY <1>4, Input
  <2>2. O[k + 1] <= O[j] /\ O[k + 1] \in Nat
    BY <2>1, Order, Offsets
  <2> QED BY <2>2, <1>1 DEF Ends, EndsOffset
<1> QED BY <1>2, <1>3, <1>4

\* ... and none is missing: the position of a member holds it.  Whatever is no member has no position.
THEOREM Inverse == \A c \in Nat, k \in 0 .. N : Below(k, c) =>
  /\ Found(k, c) <=> Member(c)
  /\ Found(k, c) => Ends(k, IndexOf(k, c)) /\ At(k, IndexOf(k, c)) = c /\ IndexOf(k, c) < Size
<1> SUFFICES ASSUME NEW c \in Nat, NEW k \in 0 .. N, Below(k, c)
             PROVE /\ Found(k, c) <=> Member(c)
                   /\ Found(k, c) => Ends(k, IndexOf(k, c)) /\ At(k, IndexOf(k, c)) = c /\ IndexOf(k, c) < Size
  OBVIOUS
<1>1. Found(k, c) => Member(c)
  BY Input DEF Found, FoundAt, Member, Below, EndsLeft
<1>2. ASSUME Member(c) PROVE Found(k, c)
  <2>1. PICK j \in 1 .. N : L[j] <= c /\ c <= R[j]
    BY <1>2 DEF Member
  <2>2. j <= k
    BY <2>1, Input DEF Below, EndsLeft
  <2>3. k \in 1 .. N
    BY <2>1, <2>2, Input
  <2>4. j = k \/ R[j] + 1 < L[k]
    BY <2>2, <2>3, Input
  <2>5. L[k] <= c
    BY <2>3 DEF Below, EndsLeft
  <2>6. R[j] \in Nat /\ L[k] \in Nat
    BY <2>3, Input
  <2> QED BY <2>1, <2>3, <2>4, <2>5, <2>6 DEF Found, FoundAt
<1>3. ASSUME Found(k, c) PROVE Ends(k, IndexOf(k, c)) /\ At(k, IndexOf(k, c)) = c /\ IndexOf(k, c) < Size
  <2>1. k \in 1 .. N /\ L[k] <= c /\ c <= R[k]
    BY <1>3 DEF Found, FoundAt, Below, EndsLeft
  <2>2. O[k + 1] = O[k] + (R[k] - L[k] + 1) /\ O[k] \in Nat /\ L[k] \in Nat /\ R[k] \in Nat
    BY <2>1, Offsets, Input
  <2>3. k + 1 \in 1 .. N + 1 /\ N + 1 \in 1 .. N + 1 /\ (k + 1 = N + 1 \/ k + 1 < N + 1)
    BY <2>1, Input
  <2>4. O[k + 1] <= O[N + 1] /\ O[N + 1] \in Nat /\ O[k + 1] \in Nat
    BY <2>3, Order, Offsets
  <2> QED BY <2>1, <2>2, <2>4 DEF Ends, EndsOffset, IndexOf, PosOf, At, AtPos, Size
<1> QED BY <1>1, <1>2, <1>3

\* The lookup upwards: everything from there on is not smaller, everything before is.
THEOREM Above == \A c \in Nat, k \in 0 .. N : Below(k, c) =>
  /\ IndexAbove(k, c) \in 0 .. Size
  /\ \A x \in Nat, m \in 1 .. N : Ends(m, x) => (x < IndexAbove(k, c) <=> At(m, x) < c)
<1> SUFFICES ASSUME NEW c \in Nat, NEW k \in 0 .. N, Below(k, c)
             PROVE /\ IndexAbove(k, c) \in 0 .. Size
                   /\ \A x \in Nat, m \in 1 .. N : Ends(m, x) => (x < IndexAbove(k, c) <=> At(m, x) < c)
  OBVIOUS
<1>0. O[k + 1] \in Nat /\ O[N + 1] \in Nat /\ O[k + 1] <= O[N + 1]
  <2>1. k + 1 \in 1 .. N + 1 /\ N + 1 \in 1 .. N + 1 /\ (k + 1 = N + 1 \/ k + 1 < N + 1)
    BY Input
  <2> QED BY <2>1, Order, Offsets
<1>1. CASE Found(k, c)
  <2>1. k \in 1 .. N /\ Ends(k, IndexOf(k, c)) /\ At(k, IndexOf(k, c)) = c /\ IndexOf(k, c) < Size
    BY <1>1, Inverse DEF Found, FoundAt
  <2>2. IndexOf(k, c) \in Nat
    <3>1. O[k] \in Nat /\ L[k] \in Nat /\ L[k] <= c BY <2>1, Offsets, Input DEF Below, EndsLeft
    <3> QED BY <3>1 DEF IndexOf, PosOf
  <2>3. ASSUME NEW x \in Nat, NEW m \in 1 .. N, Ends(m, x) PROVE x < IndexOf(k, c) <=> At(m, x) < c
    <3>1. At(m, x) \in Int BY Offsets, Input DEF At, AtPos
    <3>2. x < IndexOf(k, c) => At(m, x) < c
      BY <2>1, <2>2, <2>3, AtGrows
    <3>3. x > IndexOf(k, c) => At(m, x) > c
      BY <2>1, <2>2, <2>3, <3>1, AtGrows
    <3>4. x = IndexOf(k, c) => At(m, x) = c
      BY <2>1, <2>2, <2>3, Unique
    <3> QED BY <2>2, <3>1, <3>2, <3>3, <3>4
  <2> QED BY <1>0, <1>1, <2>1, <2>2, <2>3 DEF IndexAbove, PosAbove, IndexOf, Found, Size
<1>2. CASE ~Found(k, c)
  <2>1. ASSUME NEW x \in Nat, NEW m \in 1 .. N, Ends(m, x) PROVE x < O[k + 1] <=> At(m, x) < c
    <3>1. At(m, x) >= L[m] /\ At(m, x) <= R[m] /\ At(m, x) \in Int /\ L[m] \in Nat /\ R[m] \in Nat
      BY <2>1, AtMember, Input, Offsets DEF At, AtPos
    <3>2. CASE m <= k
      <4>1. k \in 1 .. N /\ R[k] < c
        BY <3>2, <1>2, Input DEF Found, FoundAt
      <4>2. m = k \/ R[m] + 1 < L[k]
        BY <3>2, <4>1, Input
      <4>3. L[k] <= R[k] /\ L[k] \in Nat /\ R[k] \in Nat
        BY <4>1, Input
      <4>4. R[m] < c
        BY <3>1, <4>1, <4>2, <4>3
      <4>5. m + 1 \in 1 .. N + 1 /\ k + 1 \in 1 .. N + 1 /\ (m + 1 = k + 1 \/ m + 1 < k + 1)
        BY <3>2, Input
      <4>6. O[m + 1] <= O[k + 1] /\ O[m + 1] \in Nat
        BY <4>5, Order, Offsets
      <4> QED BY <1>0, <2>1, <3>1, <4>4, <4>6 DEF Ends, EndsOffset
    <3>3. CASE m > k
      <4>1. L[m] > c
        BY <3>3, Input DEF Below, EndsLeft
      <4>2. k + 1 \in 1 .. N + 1 /\ m \in 1 .. N + 1 /\ (k + 1 = m \/ k + 1 < m)
        BY <3>3, Input
      <4>3. O[k + 1] <= O[m] /\ O[m] \in Nat
        BY <4>2, Order, Offsets
      <4> QED BY <1>0, <2>1, <3>1, <4>1, <4>3 DEF Ends, EndsOffset
    <3> QED BY <3>2, <3>3, Input
  <2> QED BY <1>0, <1>2, <2>1 DEF IndexAbove, PosAbove, IndexOf, Found, Size
<1> QED BY <1>1, <1>2
=============================================================================
