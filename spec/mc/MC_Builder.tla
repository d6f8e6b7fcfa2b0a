----------------------------- MODULE MC_Builder -----------------------------
(***************************************************************************)
(* Histories of query builders (property C07).  Every history of Depth     *)
(* calls on two builders is explored; BuilderOK says that a builder holds, *)
(* for each setting, the last value given to it since it came into being   *)
(* (following copies), and that the other calls change nothing.  The       *)
(* complete histories are printed for replay into the real library.        *)
(***************************************************************************)
EXTENDS Library, Json
CONSTANTS Depth, Emit

MCRuns == [v \in 1 .. 11 |-> << <<0, MaxCP, 1>> >>]
MCCats == 1 .. 30
MCSlots == 1 .. 2
OneVersion == {3}
SomeVersions == {0, 10}

CONSTANT NewVersions    \* zero based, as in the scenario steps

\* Steps of a scenario (see queries.rs): [0,t,v] [1,t] [2,h,t,f,x] [3,h,t] [4,h] [5,h,g] [6,h]
Values(f) == IF f \in {0, 1} THEN -1 .. 3 ELSE IF f \in {2, 3} THEN 0 .. 3 ELSE 0 .. 4
VARIABLE hist
mcvars == <<objs, hist>>

MaskOf(x)  == CASE x = -1 -> <<>> [] x = 0 -> << {13, 30} >> [] x = 1 -> << {6} >>
                [] x = 2 -> << {} >> [] x = 3 -> << (1 .. 30) \ {13} >>
CharsOf(x) == CASE x = 0 -> <<97, 90>> [] x = 1 -> <<9731, 53>> [] x = 2 -> <<>> [] x = 3 -> <<90, 90, 255, 97>>
BoundOf(x) == CASE x = 0 -> 0 [] x = 1 -> 57 [] x = 2 -> 97 [] x = 3 -> 300 [] x = 4 -> 1114112
FieldName == << "inc", "exc", "ich", "xch", "min", "max" >>
ValueOf(f, x) == IF f \in {0, 1} THEN MaskOf(x) ELSE IF f \in {2, 3} THEN << CharsOf(x) >> ELSE BoundOf(x)

Set(h, t, f, x) ==
  CASE f = 0 -> IncludeCategories(h, t, MaskOf(x))
    [] f = 1 -> ExcludeCategories(h, t, MaskOf(x))
    [] f = 2 -> IncludeCharacters(h, t, CharsOf(x))
    [] f = 3 -> ExcludeCharacters(h, t, CharsOf(x))
    [] f = 4 -> MinCodepoint(h, t, BoundOf(x))
    [] f = 5 -> MaxCodepoint(h, t, BoundOf(x))

Init == LibInit /\ hist = <<>>

Begin ==
  \/ /\ hist = <<>>
     /\ \E v \in NewVersions : NewQuery(1, v + 1) /\ hist' = << <<0, 1, v>> >>
  \/ /\ Len(hist) = 1
     /\ \/ NewDefaultQuery(2) /\ hist' = Append(hist, <<1, 2>>)
        \/ NewQuery(2, hist[1][3] + 1) /\ hist' = Append(hist, <<0, 2, hist[1][3]>>)

More == Len(hist) >= 2 /\ Len(hist) < Depth + 2
Step ==
  /\ More
  /\ \/ \E h, t \in Slots, f \in 0 .. 5 : \E x \in Values(f) :
          Set(h, t, f, x) /\ hist' = Append(hist, <<2, h, t, f, x>>)
     \/ \E h, t \in Slots : h # t /\ CopyQuery(h, t) /\ hist' = Append(hist, <<3, h, t>>)
     \/ \E h \in Slots : UNCHANGED objs /\ hist' = Append(hist, <<4, h>>)

Next == Begin \/ Step
Spec == Init /\ [][Next]_mcvars

\* The value of setting f (0 .. 5, or 6 for the version) of slot t after n steps, read off the history.
Default(f) == IF f \in 0 .. 3 THEN <<>> ELSE IF f = 4 THEN 0 ELSE IF f = 5 THEN MaxCP ELSE 11
RECURSIVE LastSet(_, _, _)
LastSet(n, t, f) ==
  IF n = 0 THEN Default(f)
  ELSE LET s == hist[n]
       IN CASE s[1] = 0 /\ s[2] = t -> IF f = 6 THEN s[3] + 1 ELSE Default(f)
            [] s[1] = 1 /\ s[2] = t -> Default(f)
            [] s[1] = 2 /\ s[3] = t -> IF s[4] = f THEN ValueOf(f, s[5]) ELSE LastSet(n - 1, s[2], f)
            [] s[1] = 3 /\ s[3] = t -> LastSet(n - 1, s[2], f)
            [] OTHER -> LastSet(n - 1, t, f)

BuilderOK ==
  \A t \in Slots :
    LET q == qs[t] n == Len(hist)
    IN /\ q.inc = LastSet(n, t, 0) /\ q.exc = LastSet(n, t, 1) /\ q.ich = LastSet(n, t, 2)
       /\ q.xch = LastSet(n, t, 3) /\ q.min = LastSet(n, t, 4) /\ q.max = LastSet(n, t, 5) /\ q.v = LastSet(n, t, 6)

EqualOK == SameQuery(1, 2) <=> \A f \in 0 .. 6 : LastSet(Len(hist), 1, f) = LastSet(Len(hist), 2, f)

Whole == Len(hist) = Depth + 2
Scenario == hist \o << <<4, 1>>, <<4, 2>>, <<5, 1, 2>>, <<6, 1>>, <<4, 1>> >>
Printed == (Whole /\ Emit) => PrintT("SCEN " \o ToJson(Scenario))
=============================================================================
