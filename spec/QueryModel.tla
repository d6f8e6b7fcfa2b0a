----------------------------- MODULE QueryModel -----------------------------
(***************************************************************************)
(* What a query means.  A query is a record                                *)
(*   v     version (index into Runs)                                       *)
(*   inc   included categories: <<>> (unset) or <<set of categories>>      *)
(*   exc   excluded categories, likewise                                   *)
(*   ich   included characters: <<>> (unset) or <<list of code points>>    *)
(*   xch   excluded characters, likewise                                   *)
(*   min, max  bounds, u32 in two's complement: negative stands for        *)
(*         values of 2^31 and above (TLC integers are 32 bit signed)       *)
(*                                                                         *)
(* Runs[v] lists <<lo, hi, category>> in order, covering 0 .. MaxCP.       *)
(***************************************************************************)
EXTENDS Intervals, TLC

CONSTANTS MaxCP, Cats, Runs

Versions == DOMAIN Runs
CatOf(v, c) == Runs[v][Floor(Runs[v], c)][3]

OptList(o) == IF o = <<>> THEN <<>> ELSE o[1]
OptSet(o)  == ToSet(OptList(o))

Selected(q) == (IF q.inc = <<>> THEN Cats ELSE q.inc[1]) \ (IF q.exc = <<>> THEN {} ELSE q.exc[1])

---------------------------------------------------------------------------
(* Which queries are valid. *)

InSpace(x) == 0 <= x /\ x <= MaxCP

Verdict(q) ==
  IF ~InSpace(q.min) \/ ~InSpace(q.max) THEN "CodepointNotInRange"
  ELSE IF q.min > q.max THEN "InvalidCodepoints"
  ELSE "ok"

\* Decimal digits of a u32 in two's complement (2^32 = 429496729 * 10 + 6).
Decimal(x) ==
  IF x >= 0 THEN ToString(x)
  ELSE LET d == (x % 10) + 6
       IN ToString(429496729 + (x \div 10) + (d \div 10)) \o ToString(d % 10)

Message(verdict, a, b) ==
  CASE verdict = "CodepointNotInRange" ->
         "Codepoints should be in [0; " \o Decimal(MaxCP) \o "] range. Got: ["
             \o Decimal(a) \o "; " \o Decimal(b) \o "]"
    [] verdict = "InvalidCodepoints" ->
         "Minimum codepoint should be less or equal than maximum codepoint. Got "
             \o Decimal(a) \o " < " \o Decimal(b)

---------------------------------------------------------------------------
(* Declarative meaning of a valid query. *)

Member(q, c) ==
  /\ c \notin OptSet(q.xch)
  /\ \/ c \in OptSet(q.ich)
     \/ /\ q.min <= c /\ c <= q.max
        /\ CatOf(q.v, c) \in Selected(q)

Meaning(q) == { c \in 0 .. MaxCP : Member(q, c) }

---------------------------------------------------------------------------
(* The same, computed as a canonical list (MC_Query: Answer = Canon(Meaning)). *)

\* Code points of the selected categories, canonical, from the runs that reach into [lo, hi].
Collect(v, sel, lo, hi) ==
  LET runs == Runs[v]
      a == Floor(runs, lo)
      b == Floor(runs, hi)
      part == SelectSeq(IF a = 1 /\ b = Len(runs) THEN runs ELSE SubSeq(runs, a, b), LAMBDA r : r[3] \in sel)
  IN Clamp(Glue(part), lo, hi)

Base(q) ==
  LET sel == Selected(q)
  IN IF sel = {} THEN <<>>
     ELSE IF sel = Cats THEN << <<q.min, q.max>> >>
     ELSE Collect(q.v, sel, q.min, q.max)

Answer(q) == Removing(Adding(Base(q), OptList(q.ich)), OptList(q.xch), MaxCP)

\* The observable result of asking: intervals or an error value with its message.
Reply(q) ==
  LET d == Verdict(q)
  IN IF d = "ok" THEN [ok |-> Answer(q)]
     ELSE [err |-> << d, q.min, q.max, Message(d, q.min, q.max) >>]

---------------------------------------------------------------------------
(* A new query. *)
Fresh(v) == [v |-> v, inc |-> <<>>, exc |-> <<>>, ich |-> <<>>, xch |-> <<>>, min |-> 0, max |-> MaxCP]
=============================================================================
