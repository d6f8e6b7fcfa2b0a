------------------------------ MODULE MC_CatSet ------------------------------
(***************************************************************************)
(* Histories of category sets (property C11): all sequences of Depth calls *)
(* on two sets, from every pair of origins.  ContentOK says, category by   *)
(* category, that a set contains what its history implies.                 *)
(***************************************************************************)
EXTENDS Library, Json
CONSTANTS Depth, Emit

MCRuns == [v \in 1 .. 2 |-> << <<0, MaxCP, 1>> >>]
MCCats == 1 .. 30
MCSlots == 1 .. 2
Some == {1, 29, 30}     \* first, unassigned, last

VARIABLE hist
mcvars == <<objs, hist>>

\* Origins: [0,t,kind,k]: 0 empty, 1 all, 2 default, 3 one category, 4 class number k.
Origins == { <<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 30>>, <<3, 1>>, <<4, 1>>, <<4, 7>> }
OriginOf(o) == CASE o[1] \in {0, 2} -> {}
                 [] o[1] = 1 -> MCCats
                 [] o[1] = 3 -> {o[2]}
                 [] o[1] = 4 -> MajorCats(MajorNames[((o[2] + 6) % 7) + 1])

Init == LibInit /\ hist = <<>>
Begin ==
  /\ Len(hist) < 2
  /\ \E o \in Origins : LET t == Len(hist) + 1
                        IN PutCats(t, OriginOf(o)) /\ hist' = Append(hist, <<0, t, o[1], o[2]>>)
Step ==
  /\ Len(hist) >= 2 /\ Len(hist) < Depth + 2
  /\ \/ \E h \in Slots, k \in Some :
          \/ AddCat(h, k) /\ hist' = Append(hist, <<1, h, k>>)
          \/ DropCat(h, k) /\ hist' = Append(hist, <<2, h, k>>)
     \/ \E h, g, t \in Slots : JoinCats(h, g, t) /\ hist' = Append(hist, <<3, h, g, t>>)
     \/ \E h, t \in Slots, k \in Some : JoinCat(h, k, t) /\ hist' = Append(hist, <<4, h, k, t>>)
Next == Begin \/ Step
Spec == Init /\ [][Next]_mcvars

RECURSIVE In(_, _, _)
\* Whether category k is in slot t after n steps.
In(n, t, k) ==
  IF n = 0 THEN FALSE
  ELSE LET s == hist[n]
       IN CASE s[1] = 0 /\ s[2] = t -> k \in OriginOf(<<s[3], s[4]>>)
            [] s[1] = 1 /\ s[2] = t -> s[3] = k \/ In(n - 1, t, k)
            [] s[1] = 2 /\ s[2] = t -> s[3] # k /\ In(n - 1, t, k)
            [] s[1] = 3 /\ s[4] = t -> In(n - 1, s[2], k) \/ In(n - 1, s[3], k)
            [] s[1] = 4 /\ s[4] = t -> s[3] = k \/ In(n - 1, s[2], k)
            [] OTHER -> In(n - 1, t, k)
ContentOK == \A t \in Slots, k \in {1, 2, 13, 29, 30} : k \in css[t] <=> In(Len(hist), t, k)

\* Observations agree with the content.
ViewOK == \A t \in Slots :
  LET S == css[t] s == SortedCats(S)
  IN /\ Len(s) = Cardinality(S) /\ ToSet(s) = S
     /\ \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
     /\ \A k \in MCCats : (RawValue(S) \div (2 ^ (k - 1))) % 2 = 1 <=> k \in S
     /\ \A n \in {0, 1, 2, 40} : LET u == AfterNth(S, n)
          IN NthCatOf(S, n) = <<>> => (u = {} /\ Cardinality(S) <= n)

Observe(h) == << <<6, h>>, <<9, h, h>>, <<12, h>>, <<10, h>>, <<12, h>>, <<11, h, 1>>, <<12, h>>, <<13, h, 1>>, <<14, h, 2>> >>
Printed == (Len(hist) = Depth + 2 /\ Emit) =>
  PrintT("SCEN " \o ToJson(hist \o Observe(1) \o Observe(2) \o << <<7, 1, 2>>, <<8, 1, 2>> >>))
=============================================================================
