------------------------------ MODULE LoopSteps ------------------------------
(***************************************************************************)
(* Single turns of the loops of Algorithms as relations between the values *)
(* before and after.  The proofs (TLAPS, all sizes) are about these; the   *)
(* models MC_Merge, MC_Subtract, MC_Clamp check that the turns of          *)
(* Algorithms, and with them the results replayed against the code, are    *)
(* such turns.  Lists are given by their left and right ends.              *)
(***************************************************************************)
EXTENDS Integers

MergeExtend(n, l, r, b, i, l2, r2, b2, i2) ==
  /\ i <= n /\ l[i] <= r[b] + 1
  /\ r2 = IF r[i] > r[b] THEN [r EXCEPT ![b] = r[i]] ELSE r
  /\ i2 = i + 1
  /\ l2 = l /\ b2 = b
MergeMove(n, l, r, b, i, l2, r2, b2, i2) ==
  /\ i <= n /\ ~(l[i] <= r[b] + 1)
  /\ b2 = b + 1
  /\ l2 = [l EXCEPT ![b + 1] = l[i]]
  /\ r2 = [r EXCEPT ![b + 1] = r[i]]
  /\ i2 = i + 1

\* Subtracting: al is shortened in place; pushed is <<>> or what is appended to the result.
SubtractTurn(na, ar, nb, bl, br, l, i, j, l2, i2, j2, pushed) ==
  /\ i <= na /\ j <= nb
  /\ \/ br[j] < l[i] /\ j2 = j + 1 /\ l2 = l /\ i2 = i /\ pushed = <<>>
     \/ br[j] >= l[i] /\ bl[j] > ar[i]
          /\ pushed = << <<l[i], ar[i]>> >> /\ i2 = i + 1 /\ l2 = l /\ j2 = j
     \/ br[j] >= l[i] /\ bl[j] <= ar[i] /\ bl[j] <= l[i] /\ br[j] >= ar[i]
          /\ i2 = i + 1 /\ l2 = l /\ j2 = j /\ pushed = <<>>
     \/ br[j] >= l[i] /\ bl[j] <= ar[i] /\ bl[j] <= l[i] /\ br[j] < ar[i]
          /\ l2 = [l EXCEPT ![i] = br[j] + 1] /\ j2 = j + 1 /\ i2 = i /\ pushed = <<>>
     \/ br[j] >= l[i] /\ bl[j] <= ar[i] /\ bl[j] > l[i] /\ br[j] < ar[i]
          /\ pushed = << <<l[i], bl[j] - 1>> >> /\ l2 = [l EXCEPT ![i] = br[j] + 1] /\ j2 = j + 1 /\ i2 = i
     \/ br[j] >= l[i] /\ bl[j] <= ar[i] /\ bl[j] > l[i] /\ br[j] >= ar[i]
          /\ pushed = << <<l[i], bl[j] - 1>> >> /\ i2 = i + 1 /\ l2 = l /\ j2 = j

ClampEnds(n, l, hi, at) == at > n \/ (at \in 1 .. n /\ l[at] > hi)
ClampLeft(l, lo, at) == IF l[at] > lo THEN l[at] ELSE lo
ClampRight(r, hi, at) == IF r[at] < hi THEN r[at] ELSE hi
ClampTurn(n, l, r, lo, hi, at, at2, pushed) ==
  /\ ~ClampEnds(n, l, hi, at)
  /\ at2 = at + 1
  /\ pushed = IF ClampLeft(l, lo, at) <= ClampRight(r, hi, at)
              THEN << <<ClampLeft(l, lo, at), ClampRight(r, hi, at)>> >> ELSE <<>>

\* Where searches in a table of offsets, and in one of left ends, end.
EndsOffset(n, o, k, x) == k \in 1 .. n /\ o[k] <= x /\ x < o[k + 1]
EndsLeft(n, l, k, c) == k \in 0 .. n /\ (\A j \in 1 .. k : l[j] <= c) /\ (\A j \in k + 1 .. n : l[j] > c)
AtPos(l, o, k, x) == l[k] + (x - o[k])
PosOf(l, o, k, c) == o[k] + (c - l[k])
FoundAt(r, k, c) == k > 0 /\ c <= r[k]
PosAbove(l, r, o, k, c) == IF FoundAt(r, k, c) THEN PosOf(l, o, k, c) ELSE o[k + 1]
=============================================================================
