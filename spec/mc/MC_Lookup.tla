----------------------------- MODULE MC_Lookup -----------------------------
(* Lookups by position and by code point in every set over 0 .. Top: as      *)
(* computed, as defined by Intervals, and as the proof (proofs/LookupProof)  *)
(* has them.                                                                 *)
EXTENDS Algorithms, LoopSteps
CONSTANTS Top
MCRuns == << << <<0, MaxCP, 1>> >> >>
VARIABLES S, x
vars == <<S, x>>
Init == S \in SUBSET (0 .. Top) /\ x = 0
Next == x < Top + 2 /\ x' = x + 1 /\ UNCHANGED S
Spec == Init /\ [][Next]_vars
s == Canon(S)
off == OffsetsAlg(s)
Below(c) == { y \in S : y < c }
ByCount ==
  /\ SizeAlg(off) = Cardinality(S)
  /\ AtAlg(s, off, x) = IF x < Cardinality(S) THEN << CHOOSE y \in S : Cardinality(Below(y)) = x >> ELSE <<>>
  /\ PosAlg(s, off, x) = IF x \in S THEN << Cardinality(Below(x)) >> ELSE <<>>
  /\ AboveAlg(s, off, x) = Cardinality(Below(x))
Agree ==
  /\ off = Offsets(s) /\ SizeAlg(off) = Size(off)
  /\ x < Size(off) => AtAlg(s, off, x) = << Select(s, off, x) >>
  /\ AboveAlg(s, off, x) = Rank(s, off, x)
\* Both ways to search end where the proof wants them to.
Proved ==
  LET n == Len(s)
      k == LeftOf(s, x)
      j == Partition(off, LAMBDA o : o <= x, 0, Len(off))
  IN /\ EndsLeft(n, Lefts(s), k, x) /\ EndsLeft(n, Lefts(s), Floor(s, x), x)
     /\ x < SizeAlg(off) => /\ EndsOffset(n, off, j, x) /\ EndsOffset(n, off, SearchOff(off, x, 1, Len(off)), x)
                            /\ AtAlg(s, off, x) = << AtPos(Lefts(s), off, j, x) >>
     /\ PosAlg(s, off, x) = IF FoundAt(Rights(s), k, x) THEN << PosOf(Lefts(s), off, k, x) >> ELSE <<>>
     /\ AboveAlg(s, off, x) = PosAbove(Lefts(s), Rights(s), off, k, x)
=============================================================================
