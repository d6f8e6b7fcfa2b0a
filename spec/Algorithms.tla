----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* How the library computes answers, as opposed to what the answers are    *)
(* (QueryModel).  Loops are state machines, one transition per turn:       *)
(*   merging       sort, then one pass that extends the interval behind    *)
(*                 the border or moves the border                          *)
(*   subtracting   two positions, the left interval shortened in place     *)
(*   extracting    runs of set bits out of a mask of several words         *)
(*   clamping      search for the first interval in range, then a scan     *)
(*   positions     offsets and searches by halving                         *)
(* Each has the form Start -> Step -> ... -> Result; the models in mc/     *)
(* explore them step by step with loop invariants, MC_QueryAlg composes    *)
(* them into the two ways a query is answered (a mask for small ranges,    *)
(* merged lists otherwise) and checks that both give Answer(q).            *)
(***************************************************************************)
EXTENDS QueryModel

---------------------------------------------------------------------------
(* Merging a list of intervals in place. *)

SortByLeft(s) == SortSeq(s, LAMBDA x, y : x[1] < y[1])

MergeStart(s) == [list |-> SortByLeft(s), border |-> 1, index |-> 2]
MergeDone(m)  == m.index > Len(m.list)
MergeStep(m) ==
  LET i == m.list[m.index]
      right == m.list[m.border][2]
  IN IF i[1] <= right + 1
     THEN [m EXCEPT !.index = @ + 1,
                    !.list = IF i[2] > right THEN [@ EXCEPT ![m.border] = <<@[1], i[2]>>] ELSE @]
     ELSE [m EXCEPT !.index = @ + 1, !.border = @ + 1, !.list = [@ EXCEPT ![m.border + 1] = i]]
MergeResult(m) == SubSeq(m.list, 1, IF m.border < Len(m.list) THEN m.border ELSE Len(m.list))

RECURSIVE MergeRun(_)
MergeRun(m) == IF MergeDone(m) THEN MergeResult(m) ELSE MergeRun(MergeStep(m))
MergeAlg(s) == MergeRun(MergeStart(s))

---------------------------------------------------------------------------
(* Subtracting one canonical list from another. *)

SubStart(a, b) == [left |-> a, right |-> b, i |-> 1, j |-> 1, out |-> <<>>]
SubDone(m) == m.i > Len(m.left) \/ m.j > Len(m.right)
SubStep(m) ==
  LET ll == m.left[m.i][1]
      lr == m.left[m.i][2]
      rl == m.right[m.j][1]
      rr == m.right[m.j][2]
  IN IF rr < ll THEN [m EXCEPT !.j = @ + 1]
     ELSE IF rl > lr THEN [m EXCEPT !.out = Append(@, <<ll, lr>>), !.i = @ + 1]
     ELSE IF rl <= ll
          THEN IF rr >= lr THEN [m EXCEPT !.i = @ + 1]
               ELSE [m EXCEPT !.left[m.i] = <<rr + 1, lr>>, !.j = @ + 1]
     ELSE IF rr < lr
          THEN [m EXCEPT !.out = Append(@, <<ll, rl - 1>>), !.left[m.i] = <<rr + 1, lr>>, !.j = @ + 1]
          ELSE [m EXCEPT !.out = Append(@, <<ll, rl - 1>>), !.i = @ + 1]
SubRest(m) == SubSeq(m.left, m.i, Len(m.left))
SubResult(m) == m.out \o SubRest(m)

RECURSIVE SubRun(_)
SubRun(m) == IF SubDone(m) THEN SubResult(m) ELSE SubRun(SubStep(m))
SubAlg(a, b) == IF a = <<>> \/ b = <<>> THEN a ELSE SubRun(SubStart(a, b))

FromChars(cs) == IF cs = <<>> THEN <<>> ELSE MergeAlg(Singles(cs))

---------------------------------------------------------------------------
(* Lists by their ends, as the proofs see them. *)
Lefts(s)  == [k \in DOMAIN s |-> s[k][1]]
Rights(s) == [k \in DOMAIN s |-> s[k][2]]

---------------------------------------------------------------------------
(* Masks: words 0 .. NW-1, each a set of bits 0 .. BW-1. *)

CONSTANTS NW, BW
Bound == NW * BW
Word == 0 .. NW - 1
Bit  == 0 .. BW - 1
NoBits  == [w \in Word |-> {}]
AllBits == [w \in Word |-> Bit]
MaskPoints(m) == UNION { { w * BW + b : b \in m[w] } : w \in Word }

\* Bits [lo, hi], word by word.
RangeMask(lo, hi) ==
  [w \in Word |->
     LET base == w * BW
         top == base + BW - 1
     IN IF hi >= base /\ lo <= top
        THEN (IF lo > base THEN lo - base ELSE 0) .. (IF hi < top THEN hi - base ELSE BW - 1)
        ELSE {}]

Lowest(S) == CHOOSE b \in S : \A x \in S : b <= x
\* Number of consecutive bits of S from b on.
RunFrom(S, b) == CHOOSE n \in 1 .. BW : b .. b + n - 1 \subseteq S /\ (b + n) \notin S

RunsStart(mask) == [word |-> 0, rem |-> mask[0], cur |-> <<>>, out |-> <<>>, mask |-> mask]
RunsDone(m) == m.word = NW
RunsStep(m) ==
  IF m.rem = {}
  THEN [m EXCEPT !.word = @ + 1, !.rem = IF m.word + 1 < NW THEN m.mask[m.word + 1] ELSE {}]
  ELSE LET start == Lowest(m.rem)
           run == RunFrom(m.rem, start)
           lo == m.word * BW + start
           hi == lo + run - 1
           joins == m.cur # <<>> /\ m.cur[1][2] + 1 = lo
       IN [m EXCEPT !.rem = @ \ (0 .. start + run - 1),
                    !.cur = IF joins THEN << <<@[1][1], hi>> >> ELSE << <<lo, hi>> >>,
                    !.out = IF joins THEN @ ELSE @ \o m.cur]
RunsResult(m) == m.out \o m.cur

RECURSIVE RunsRun(_)
RunsRun(m) == IF RunsDone(m) THEN RunsResult(m) ELSE RunsRun(RunsStep(m))
RunsAlg(mask) == RunsRun(RunsStart(mask))

---------------------------------------------------------------------------
(* The part of a table inside [lo, hi]: long tables are searched first. *)

\* Number of leading intervals for which P holds, by halving (P is true on a prefix).
RECURSIVE Partition(_, _, _, _)
Partition(s, P(_), a, b) ==
  IF a = b THEN a
  ELSE LET m == (a + b) \div 2
       IN IF P(s[m + 1]) THEN Partition(s, P, m + 1, b) ELSE Partition(s, P, a, m)

ClampStart(s, lo, hi, threshold) ==
  [at |-> IF s # <<>> /\ s[1][2] < lo /\ Len(s) >= threshold
          THEN 1 + Partition(s, LAMBDA i : i[2] < lo, 0, Len(s)) ELSE 1,
   out |-> <<>>, list |-> s, lo |-> lo, hi |-> hi]
ClampDone(m) == IF m.at > Len(m.list) THEN TRUE ELSE m.list[m.at][1] > m.hi
ClampStep(m) ==
  LET i == m.list[m.at]
      l == IF i[1] > m.lo THEN i[1] ELSE m.lo
      r == IF i[2] < m.hi THEN i[2] ELSE m.hi
  IN [m EXCEPT !.at = @ + 1, !.out = IF l <= r THEN Append(@, <<l, r>>) ELSE @]

RECURSIVE ClampRun(_)
ClampRun(m) == IF ClampDone(m) THEN m.out ELSE ClampRun(ClampStep(m))
ClampAlg(s, lo, hi, threshold) == ClampRun(ClampStart(s, lo, hi, threshold))

---------------------------------------------------------------------------
(* Positions in a set: offsets, and halving to find the interval. *)

OffsetsAlg(s) == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + (i[2] - i[1] + 1)), <<0>>, s)
SizeAlg(off) == off[Len(off)]
\* <<>> for none.
AtAlg(s, off, x) ==
  IF x >= SizeAlg(off) THEN <<>>
  ELSE LET k == Partition(off, LAMBDA o : o <= x, 0, Len(off)) IN << s[k][1] + x - off[k] >>
LeftOf(s, c) == Partition(s, LAMBDA i : i[1] <= c, 0, Len(s))
PosAlg(s, off, c) ==
  LET k == LeftOf(s, c)
  IN IF k = 0 THEN <<>> ELSE IF c <= s[k][2] THEN << off[k] + (c - s[k][1]) >> ELSE <<>>
AboveAlg(s, off, c) ==
  LET k == LeftOf(s, c)
  IN IF k > 0 /\ c <= s[k][2] THEN off[k] + (c - s[k][1]) ELSE off[k + 1]

---------------------------------------------------------------------------
(* Both ways to answer a query. *)

\* The table of category k: its runs.
Table(v, k) == SelectSeq([i \in DOMAIN Runs[v] |-> IF Runs[v][i][3] = k THEN << Runs[v][i][1], Runs[v][i][2] >> ELSE <<1, 0>>],
                         LAMBDA i : i[1] <= i[2])
\* Selection of categories, as computed: an explicitly empty inclusion comes first.
MergeCats(inc, exc) ==
  IF inc # <<>> THEN IF inc[1] = {} THEN {} ELSE inc[1] \ exc ELSE Cats \ exc
SelAlg(q) == MergeCats(q.inc, IF q.exc = <<>> THEN {} ELSE q.exc[1])

CatMask(v, k) == [w \in Word |-> { b \in Bit : Has(Table(v, k), w * BW + b) }]
Put(mask, c) == [mask EXCEPT ![c \div BW] = @ \cup {c % BW}]
Unput(mask, c) == [mask EXCEPT ![c \div BW] = @ \ {c % BW}]

FastAlg(q) ==
  LET sel == SelAlg(q)
      cats == IF sel = {} THEN NoBits ELSE IF sel = Cats THEN AllBits
              ELSE [w \in Word |-> UNION { CatMask(q.v, k)[w] : k \in sel }]
      r == RangeMask(q.min, q.max)
      clamped == [w \in Word |-> cats[w] \cap r[w]]
      added == FoldLeft(Put, clamped, OptList(q.ich))
  IN RunsAlg(FoldLeft(Unput, added, OptList(q.xch)))

SlowAlg(q, threshold) ==
  LET sel == SelAlg(q)
      order == SetToSortSeq(sel, LAMBDA a, b : a < b)
      whole == q.min = 0 /\ q.max = MaxCP
      base == IF sel = {} THEN <<>>
              ELSE IF sel = Cats THEN << <<q.min, q.max>> >>
              ELSE FlattenSeq([i \in DOMAIN order |->
                     IF whole THEN Table(q.v, order[i])
                     ELSE ClampAlg(Table(q.v, order[i]), q.min, q.max, threshold)])
      inc == FromChars(OptList(q.ich))
      withinc == IF base = <<>> THEN inc
                 ELSE IF inc # <<>> THEN MergeAlg(base \o inc)
                 ELSE IF Cardinality(sel) > 1 /\ sel # Cats THEN MergeAlg(base)
                 ELSE base
  IN SubAlg(withinc, FromChars(OptList(q.xch)))

Small(cs) == \A i \in DOMAIN cs : cs[i] < Bound
TakesMask(q) == q.max < Bound /\ Small(OptList(q.ich)) /\ Small(OptList(q.xch))
QueryAlg(q, threshold) == IF TakesMask(q) THEN FastAlg(q) ELSE SlowAlg(q, threshold)
=============================================================================
