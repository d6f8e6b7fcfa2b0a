----------------------------- MODULE MC_Sweeps -----------------------------
(* An accepted segment describes the specified results, and every specified  *)
(* result is described by some accepted segment.                             *)
EXTENDS Sweeps
CONSTANT Top
VARIABLES S, g
Kinds == 0 .. 4
Init == S \in SUBSET (0 .. Top) /\ g = <<>>
Next == /\ g = <<>>
        /\ \E a, b \in 0 .. Top, kd \in Kinds, k \in 0 .. Top + 1 : a <= b /\ g' = <<a, b, kd, k>>
        /\ UNCHANGED S
Spec == Init /\ [][Next]_<<S, g>>
s == Canon(S)
off == Offsets(s)
At_(x) == IF x < Size(off) THEN << Select(s, off, x) >> ELSE <<>>
Pos(x) == IF x \in S THEN << Cardinality({ y \in S : y < x }) >> ELSE <<>>
Abv(x) == << Cardinality({ y \in S : y < x }) >>
Nonempty(k) == 1 <= k /\ k <= Len(s)
\* A segment describes something only if its index is meaningful.
MeansMax == (g[3] = 0 /\ g[4] <= Len(s)) \/ (g[3] = 1 /\ Nonempty(g[4]))
MeansAdd == CASE g[3] = 0 -> TRUE
              [] g[3] = 1 -> g[4] <= Len(s)
              [] g[3] = 2 -> Nonempty(g[4])
              [] g[3] = 3 -> Nonempty(g[4] + 1)
              [] g[3] = 4 -> Nonempty(g[4]) /\ Nonempty(g[4] + 1)
MeansDel == g[3] = 0 \/ Nonempty(g[4])
X == g[1] .. g[2]
\* Kind 2, 3 and 4 of the include and exclude sweeps describe one argument each: longer
\* segments are refused (never written by the recorder), so equivalence is for from = to.
OneAt == g[3] \in {2, 3, 4} => g[1] = g[2]
Equiv ==
  g # <<>> =>
  /\ (g[3] <= 1 => (MaxSeg(s, g) => MeansMax /\ \A x \in X : MaxSegAt(s, g, x) = Clamp(s, 0, x)))
  /\ (g[3] <= 1 => (MinSeg(s, g) => MeansMax /\ \A x \in X : MinSegAt(s, g, x) = Clamp(s, x, Top)))
  /\ (AddSeg(s, g) => OneAt /\ MeansAdd /\ \A x \in X : AddSegAt(s, g, x) = AddPoint(s, x))
  /\ (DelSeg(s, g) => OneAt /\ MeansDel /\ \A x \in X : DelSegAt(s, g, x) = DelPoint(s, x))
  /\ ((g[3] \in {0, 2} \/ g[1] = g[2]) /\ g[3] <= 2 => (PosSeg(s, off, g) <=> \A x \in X : SegValue(g, x) = Pos(x)))
  /\ (g[3] \in {1, 2} => (AboveSeg(s, off, g) <=> \A x \in X : SegValue(g, x) = Abv(x)))
  /\ ((g[3] \in {0, 2} \/ g[1] = g[2]) /\ g[3] <= 2 => (AtSeg(s, off, g) <=> \A x \in X : SegValue(g, x) = At_(x)))
  /\ (g[3] \in {0, 1} => (HasSeg(s, g) <=> \A x \in X : (x \in S) = (g[3] = 1 /\ g[4] = 1)
                                                  /\ (g[3] = 1 => g[4] = 1)))
Complete ==
  g = <<>> => \A x \in 0 .. Top :
    /\ \E kd \in 0 .. 1, k \in 0 .. Top + 1 : MaxSeg(s, <<x, x, kd, k>>)
    /\ \E kd \in 0 .. 1, k \in 0 .. Top + 1 : MinSeg(s, <<x, x, kd, k>>)
    /\ \E kd \in 0 .. 4, k \in 0 .. Top + 1 : AddSeg(s, <<x, x, kd, k>>)
    /\ \E kd \in 0 .. 4, k \in 0 .. Top + 1 : DelSeg(s, <<x, x, kd, k>>)
=============================================================================
