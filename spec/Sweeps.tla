------------------------------- MODULE Sweeps -------------------------------
(***************************************************************************)
(* Exhaustive sweeps, written down without loss as segments.               *)
(*                                                                         *)
(* A sweep applies one operation at every point of an interval of argument *)
(* values.  The recorder joins neighbouring arguments whose results follow *)
(* one pattern into a segment <<from, to, kind, k>>.  For each sweep there *)
(* is an operator Xxx(s, g) that decodes nothing but says whether segment  *)
(* g is right for every argument in it; XxxAt(s, g, x) gives the result a  *)
(* segment stands for at x.  MC_Sweeps checks, over all small lists and    *)
(* all segments, that g is accepted exactly if XxxAt(s, g, x) is the       *)
(* specified result for all x in it.                                       *)
(***************************************************************************)
EXTENDS Intervals

\* Segments cover lo .. hi, in order, without holes.
Covers(gs, lo, hi) ==
  /\ gs # <<>> /\ gs[1][1] = lo /\ gs[Len(gs)][2] = hi
  /\ \A i \in DOMAIN gs : gs[i][1] <= gs[i][2]
  /\ \A i \in 1 .. Len(gs) - 1 : gs[i + 1][1] = gs[i][2] + 1

\* The same for characters: surrogates (D800 .. DFFF) are no characters.
CoversChars(gs, lo, hi) ==
  /\ gs # <<>> /\ gs[1][1] = lo /\ gs[Len(gs)][2] = hi
  /\ \A i \in DOMAIN gs : gs[i][1] <= gs[i][2] /\ (gs[i][2] <= 55295 \/ gs[i][1] >= 57344)
  /\ \A i \in 1 .. Len(gs) - 1 :
        gs[i + 1][1] = IF gs[i][2] = 55295 THEN 57344 ELSE gs[i][2] + 1

NoneIn(s, a, b) == LET k == Floor(s, b) IN k = 0 \/ s[k][2] < a
AllIn(s, a, b)  == LET k == Floor(s, a) IN k > 0 /\ b <= s[k][2]

\* k preceding intervals end before a, the others start after b (strictly apart by d).
Gap(s, k, a, b, d) ==
  /\ 0 <= k /\ k <= Len(s)
  /\ k = 0 \/ s[k][2] + d < a
  /\ k = Len(s) \/ b + d < s[k + 1][1]

Nth_(s, k) == 1 <= k /\ k <= Len(s)

---------------------------------------------------------------------------
(* Max sweep: the answer with upper bound x, for x in lo .. hi (s = answer with upper bound hi).
   kind 0: the first k intervals;  kind 1: the first k intervals, the k-th cut to end at x. *)
MaxSeg(s, g) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> /\ 0 <= k /\ k <= Len(s) /\ (k = 0 \/ s[k][2] <= g[1])
                      /\ (k = Len(s) \/ g[2] < s[k + 1][1])
       [] g[3] = 1 -> Nth_(s, k) /\ s[k][1] <= g[1] /\ g[2] <= s[k][2]
       [] OTHER -> FALSE
MaxSegAt(s, g, x) ==
  IF g[3] = 0 THEN SubSeq(s, 1, g[4])
  ELSE SubSeq(s, 1, g[4] - 1) \o << <<s[g[4]][1], x>> >>

(* Min sweep: kind 0: all but the first k intervals; kind 1: those from the k-th on, which starts at x. *)
MinSeg(s, g) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> /\ 0 <= k /\ k <= Len(s) /\ (k = 0 \/ s[k][2] < g[1])
                      /\ (k = Len(s) \/ g[2] <= s[k + 1][1])
       [] g[3] = 1 -> Nth_(s, k) /\ s[k][1] <= g[1] /\ g[2] <= s[k][2]
       [] OTHER -> FALSE
MinSegAt(s, g, x) ==
  IF g[3] = 0 THEN SubSeq(s, g[4] + 1, Len(s))
  ELSE << <<x, s[g[4]][2]>> >> \o SubSeq(s, g[4] + 1, Len(s))

(* Include sweep: the answer when character x is included.
   0: s itself; 1: <<x,x>> inserted after k intervals; 2: the k-th interval now ends at x;
   3: the (k+1)-th now starts at x; 4: the k-th and (k+1)-th joined. *)
AddSeg(s, g) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> AllIn(s, g[1], g[2])
       [] g[3] = 1 -> Gap(s, k, g[1], g[2], 1)
       [] g[3] = 2 -> g[1] = g[2] /\ Nth_(s, k) /\ s[k][2] + 1 = g[1] /\ (k = Len(s) \/ g[1] + 1 < s[k + 1][1])
       [] g[3] = 3 -> g[1] = g[2] /\ Nth_(s, k + 1) /\ g[1] + 1 = s[k + 1][1] /\ (k = 0 \/ s[k][2] + 1 < g[1])
       [] g[3] = 4 -> g[1] = g[2] /\ Nth_(s, k) /\ Nth_(s, k + 1) /\ s[k][2] + 1 = g[1] /\ g[1] + 1 = s[k + 1][1]
       [] OTHER -> FALSE
AddSegAt(s, g, x) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> s
       [] g[3] = 1 -> Splice(s, k, k + 1, << <<x, x>> >>)
       [] g[3] = 2 -> [s EXCEPT ![k] = << @[1], x >>]
       [] g[3] = 3 -> [s EXCEPT ![k + 1] = << x, @[2] >>]
       [] g[3] = 4 -> Splice(s, k - 1, k + 2, << <<s[k][1], s[k + 1][2]>> >>)

(* Exclude sweep: the answer when character x is excluded.
   0: s itself; 1: the k-th interval split around x; 2: it loses its first point; 3: its last; 4: it vanishes. *)
DelSeg(s, g) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> NoneIn(s, g[1], g[2])
       [] g[3] = 1 -> Nth_(s, k) /\ s[k][1] < g[1] /\ g[2] < s[k][2]
       [] g[3] = 2 -> g[1] = g[2] /\ Nth_(s, k) /\ g[1] = s[k][1] /\ g[1] < s[k][2]
       [] g[3] = 3 -> g[1] = g[2] /\ Nth_(s, k) /\ g[1] = s[k][2] /\ s[k][1] < g[1]
       [] g[3] = 4 -> g[1] = g[2] /\ Nth_(s, k) /\ s[k] = << g[1], g[1] >>
       [] OTHER -> FALSE
DelSegAt(s, g, x) ==
  LET k == g[4]
  IN CASE g[3] = 0 -> s
       [] g[3] = 1 -> Splice(s, k - 1, k + 1, << <<s[k][1], x - 1>>, <<x + 1, s[k][2]>> >>)
       [] g[3] = 2 -> [s EXCEPT ![k] = << @[1] + 1, @[2] >>]
       [] g[3] = 3 -> [s EXCEPT ![k] = << @[1], @[2] - 1 >>]
       [] g[3] = 4 -> Splice(s, k - 1, k + 1, <<>>)

---------------------------------------------------------------------------
(* Lookup sweeps on an interval set with offsets.
   kind 0: no result; kind 1: the value k throughout; kind 2: k + (x - from). *)
SegValue(g, x) == CASE g[3] = 0 -> <<>> [] g[3] = 1 -> << g[4] >> [] g[3] = 2 -> << g[4] + (x - g[1]) >>

PosSeg(s, off, g) ==
  CASE g[3] = 0 -> NoneIn(s, g[1], g[2])
    [] g[3] = 1 -> g[1] = g[2] /\ AllIn(s, g[1], g[2]) /\ g[4] = Rank(s, off, g[1])
    [] g[3] = 2 -> AllIn(s, g[1], g[2]) /\ g[4] = Rank(s, off, g[1])
    [] OTHER -> FALSE

HasSeg(s, g) ==
  CASE g[3] = 0 -> NoneIn(s, g[1], g[2])
    [] g[3] = 1 -> AllIn(s, g[1], g[2]) /\ g[4] = 1
    [] OTHER -> FALSE

AboveSeg(s, off, g) ==
  CASE g[3] = 1 -> g[4] = Rank(s, off, g[1]) /\ (g[1] = g[2] \/ NoneIn(s, g[1], g[2] - 1))
    [] g[3] = 2 -> g[4] = Rank(s, off, g[1]) /\ (g[1] = g[2] \/ AllIn(s, g[1], g[2] - 1))
    [] OTHER -> FALSE

AtSeg(s, off, g) ==
  CASE g[3] = 0 -> g[1] >= Size(off)
    [] g[3] = 1 -> g[1] = g[2] /\ g[1] < Size(off) /\ g[4] = Select(s, off, g[1])
    [] g[3] = 2 -> /\ g[2] < Size(off) /\ g[4] = Select(s, off, g[1])
                   /\ Select(s, off, g[2]) - g[4] = g[2] - g[1]
    [] OTHER -> FALSE
=============================================================================
