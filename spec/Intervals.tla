----------------------------- MODULE Intervals -----------------------------
(***************************************************************************)
(* Sets of code points as lists of inclusive intervals <<lo, hi>>.         *)
(*                                                                         *)
(* The first part is declarative (Points, Canonical).  The second part     *)
(* gives operators that work on canonical lists directly, so that TLC can  *)
(* evaluate them on lists of thousands of intervals over the real code     *)
(* space; MC_Intervals checks each of them against the declarative part    *)
(* on every list over a small code space.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* The code points an interval list stands for.
Points(s) == UNION { s[k][1] .. s[k][2] : k \in DOMAIN s }

\* Strictly increasing, non-empty, non-overlapping and non-touching intervals.
Canonical(s, top) ==
  /\ \A k \in DOMAIN s : 0 <= s[k][1] /\ s[k][1] <= s[k][2] /\ s[k][2] <= top
  /\ \A k \in 1 .. Len(s) - 1 : s[k][2] + 1 < s[k + 1][1]

\* The canonical list of a finite set of points (declarative, small sets only).
RECURSIVE Canon(_)
Canon(S) ==
  IF S = {} THEN <<>>
  ELSE LET lo == CHOOSE x \in S : \A y \in S : x <= y
           hi == CHOOSE x \in S : /\ lo .. x \subseteq S
                                  /\ (x + 1) \notin S
       IN  << <<lo, hi>> >> \o Canon(S \ (lo .. hi))

---------------------------------------------------------------------------
(* Operators on canonical lists. *)

\* Largest k in a..b with s[k][1] <= c, given s[a][1] <= c (or a = 0) and s[b+1][1] > c.
RECURSIVE Search(_, _, _, _)
Search(s, c, a, b) ==
  IF a = b THEN a
  ELSE LET m == (a + b + 1) \div 2
       IN IF s[m][1] <= c THEN Search(s, c, m, b) ELSE Search(s, c, a, m - 1)

\* Index of the last interval starting at or below c; 0 if there is none.
Floor(s, c) == Search(s, c, 0, Len(s))

Has(s, c) == LET k == Floor(s, c) IN k > 0 /\ c <= s[k][2]

\* Replace intervals a+1 .. b-1 by the list mid.
Splice(s, a, b, mid) == SubSeq(s, 1, a) \o mid \o SubSeq(s, b, Len(s))

AddPoint(s, c) ==
  LET k     == Floor(s, c)
      left  == k > 0 /\ s[k][2] + 1 = c
      right == k < Len(s) /\ s[k + 1][1] = c + 1
  IN CASE k > 0 /\ c <= s[k][2] -> s
       [] k > 0 /\ c > s[k][2] /\ left /\ right ->
            Splice(s, k - 1, k + 2, << <<s[k][1], s[k + 1][2]>> >>)
       [] left /\ ~right -> Splice(s, k - 1, k + 1, << <<s[k][1], c>> >>)
       [] right /\ ~left -> Splice(s, k, k + 2, << <<c, s[k + 1][2]>> >>)
       [] OTHER -> Splice(s, k, k + 1, << <<c, c>> >>)

DelPoint(s, c) ==
  LET k == Floor(s, c)
  IN IF k = 0 \/ c > s[k][2] THEN s
     ELSE Splice(s, k - 1, k + 1,
                 (IF s[k][1] < c THEN << <<s[k][1], c - 1>> >> ELSE <<>>) \o
                 (IF c < s[k][2] THEN << <<c + 1, s[k][2]>> >> ELSE <<>>))

\* cs is a list of code points, in any order and with any repetition.
AddAll(s, cs) == FoldLeft(LAMBDA acc, c : AddPoint(acc, c), s, cs)
DelAll(s, cs) == FoldLeft(LAMBDA acc, c : DelPoint(acc, c), s, cs)

\* The part of a canonical list inside [lo, hi].
Clamp(s, lo, hi) ==
  LET a == Floor(s, lo)
      b == Floor(s, hi)
      first == IF a > 0 /\ s[a][2] >= lo THEN a ELSE a + 1
      Cut(i) == << IF i[1] < lo THEN lo ELSE i[1], IF i[2] > hi THEN hi ELSE i[2] >>
  IN IF lo > hi \/ first > b THEN <<>>
     ELSE IF first = b THEN << Cut(s[b]) >>
     ELSE << Cut(s[first]) >> \o SubSeq(s, first + 1, b - 1) \o << Cut(s[b]) >>

---------------------------------------------------------------------------
(* Recorded lists need not be canonical.  Normal(s, top) is the canonical    *)
(* list of Points(s), for any list of intervals inside 0 .. top; a list with *)
(* points elsewhere is left as it is.                                        *)

Coalesce(s) ==
  FoldLeft(LAMBDA acc, i :
             LET n == Len(acc)
             IN IF n > 0 /\ i[1] <= acc[n][2] + 1
                THEN IF i[2] > acc[n][2] THEN [acc EXCEPT ![n] = << @[1], i[2] >>] ELSE acc
                ELSE Append(acc, i),
           <<>>, s)

\* The same for a list in increasing order without overlaps (linear time).
Ends(s) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : i = Len(s) \/ s[i][2] + 1 # s[i + 1][1])
Glue(s) ==
  LET e == Ends(s)
  IN [k \in DOMAIN e |-> << s[IF k = 1 THEN 1 ELSE e[k - 1] + 1][1], s[e[k]][2] >>]

Ordered(s) == \A k \in 1 .. Len(s) - 1 : s[k][2] < s[k + 1][1]

\* The distinct intervals by their first point.  (TLC enumerates sets in order, which
\* makes the first case fast; the second is for any other order.)
SortedIvs(s) ==
  LET t == SetToSeq(ToSet(s))
  IN IF \A k \in 1 .. Len(t) - 1 : t[k][1] <= t[k + 1][1] THEN t
     ELSE SortSeq(t, LAMBDA x, y : x[1] < y[1])

Normal(s, top) ==
  IF Canonical(s, top) \/ \E k \in DOMAIN s : s[k][1] < 0 \/ s[k][2] < 0 \/ s[k][1] > top \/ s[k][2] > top
  THEN s
  ELSE LET t == SortedIvs(SelectSeq(s, LAMBDA i : i[1] <= i[2]))
       IN IF Ordered(t) THEN Glue(t) ELSE Coalesce(t)

Union2(s, t, top) == Normal(s \o t, top)

---------------------------------------------------------------------------
(* Adding and removing many points at once (not one by one, which would be slow). *)

Singles(cs) == [i \in DOMAIN cs |-> << cs[i], cs[i] >>]
\* What a canonical list leaves out of 0 .. top.
Holes(s, top) ==
  LET n == Len(s)
  IN SelectSeq([k \in 1 .. n + 1 |-> << IF k = 1 THEN 0 ELSE s[k - 1][2] + 1,
                                        IF k = n + 1 THEN top ELSE s[k][1] - 1 >>],
               LAMBDA i : i[1] <= i[2])
AddMany(s, cs) == Glue(SortedIvs(s \o Singles(SelectSeq(cs, LAMBDA c : ~Has(s, c)))))
DelMany(s, cs, top) == Holes(AddMany(Holes(s, top), cs), top)

\* The points of s that are not in t.
Minus(s, t, top) == Holes(Normal(Holes(s, top) \o t, top), top)

\* The quicker way for each length.
Adding(s, cs)        == IF Len(cs) < 24 THEN AddAll(s, cs) ELSE AddMany(s, cs)
Removing(s, cs, top) == IF Len(cs) < 24 THEN DelAll(s, cs) ELSE DelMany(s, cs, top)

---------------------------------------------------------------------------
(* Positions: off[k] members precede interval k; off[Len(s)+1] is the size. *)

OffsetsFrom(first, s) == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + (i[2] - i[1] + 1)), <<first>>, s)

\* The same in pieces of k intervals: appending to a long list takes time proportional to it.
OffsetsBy(s, k) ==
  LET pieces == FoldLeft(LAMBDA acc, p :
                           LET last == acc[Len(acc)]
                               a == k * (p - 1)
                           IN Append(acc, OffsetsFrom(last[Len(last)],
                                                      SubSeq(s, a + 1, IF a + k > Len(s) THEN Len(s) ELSE a + k))),
                         << <<0>> >>, [p \in 1 .. (Len(s) + k - 1) \div k |-> p])
  IN [i \in 1 .. Len(s) + 1 |->
        IF i = 1 THEN 0 ELSE pieces[(i - 2) \div k + 2][((i - 2) % k) + 2]]

Offsets(s) == IF Len(s) < 512 THEN OffsetsFrom(0, s) ELSE OffsetsBy(s, 256)

Size(off) == off[Len(off)]

\* Number of members smaller than c.
Rank(s, off, c) ==
  LET k == Floor(s, c)
  IN IF k = 0 THEN 0
     ELSE IF c <= s[k][2] THEN off[k] + (c - s[k][1])
     ELSE off[k + 1]

RECURSIVE SearchOff(_, _, _, _)
SearchOff(off, i, a, b) ==
  IF a = b THEN a
  ELSE LET m == (a + b + 1) \div 2
       IN IF off[m] <= i THEN SearchOff(off, i, m, b) ELSE SearchOff(off, i, a, m - 1)

\* The (i+1)-th smallest member, for 0 <= i < Size(off).
Select(s, off, i) ==
  LET k == SearchOff(off, i, 1, Len(off)) IN s[k][1] + (i - off[k])

\* The members with positions a .. b-1, as a canonical list.
Slice(s, off, a, b) ==
  IF a >= b THEN <<>> ELSE Clamp(s, Select(s, off, a), Select(s, off, b - 1))
=============================================================================
