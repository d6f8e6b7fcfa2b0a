----------------------------- MODULE MC_Normal -----------------------------
(* Normal is the canonical list of the points, for every list of up to N      *)
(* intervals (reversed, overlapping, touching or unsorted ones included).     *)
EXTENDS Intervals
CONSTANTS Top, N
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E a, b \in 0 .. Top : s' = Append(s, <<a, b>>)
NormalOK == Normal(s, Top) = Canon(Points(s))
=============================================================================
