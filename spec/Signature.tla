----------------------------- MODULE Signature -----------------------------
(***************************************************************************)
(* How the arguments of a Python call reach the parameters of a function.  *)
(*                                                                         *)
(* A parameter has a name, a way (it can be given by "either" position or  *)
(* name, or by "name" only) and may have to be given.  A call is a number  *)
(* of positional arguments followed by named ones.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Param(n, way, must) == [name |-> n, way |-> way, must |-> must]
Named(n)    == Param(n, "name", FALSE)
Optional(n) == Param(n, "either", FALSE)
Needed(n)   == Param(n, "either", TRUE)

\* As declared in the stubs of the package.
Signatures ==
  [ query |-> << Named("categories"), Named("exclude_categories"), Named("min_codepoint"), Named("max_codepoint"),
                 Named("include_characters"), Named("exclude_characters"), Named("version") >>,
    categories |-> << Optional("version") >>,
    as_general_categories |-> << Needed("categories"), Optional("version") >>,
    UnicodeVersion |-> << Needed("value") >>,
    latest |-> << >> ]

Functions == DOMAIN Signatures
ParamNames(fn) == { Signatures[fn][i].name : i \in DOMAIN Signatures[fn] }
AllNames == UNION { ParamNames(fn) : fn \in Functions }

---------------------------------------------------------------------------
(* Meaning: argument i of the positional ones belongs to parameter i, a named one to the parameter
   of that name; every argument belongs to a parameter, none to the same, and no needed one is left. *)

TakesPosition(fn, i) == i \in DOMAIN Signatures[fn] /\ Signatures[fn][i].way = "either"
Place(fn, n) == CHOOSE i \in DOMAIN Signatures[fn] : Signatures[fn][i].name = n

WellFormed(fn, npos, kws) ==
  /\ \A i \in 1 .. npos : TakesPosition(fn, i)
  /\ kws \subseteq ParamNames(fn)
  /\ \A n \in kws : Place(fn, n) > npos
  /\ \A i \in DOMAIN Signatures[fn] :
        Signatures[fn][i].must => i <= npos \/ Signatures[fn][i].name \in kws

\* The value each parameter gets; kw is a sequence of <<name, value>>.
Received(fn, pos, kw, absent) ==
  LET names == { kw[j][1] : j \in DOMAIN kw }
  IN [ n \in ParamNames(fn) |->
         IF Place(fn, n) <= Len(pos) THEN pos[Place(fn, n)]
         ELSE IF n \in names THEN kw[CHOOSE j \in DOMAIN kw : kw[j][1] = n][2]
         ELSE absent ]

---------------------------------------------------------------------------
(* The way an interpreter does it: argument by argument. *)

BindStart(fn) == [fn |-> fn, slots |-> [i \in DOMAIN Signatures[fn] |-> <<>>], failed |-> FALSE]
BindPos(m, i, x) == IF TakesPosition(m.fn, i) THEN [m EXCEPT !.slots[i] = <<x>>] ELSE [m EXCEPT !.failed = TRUE]
BindName(m, n, x) ==
  IF n \notin ParamNames(m.fn) THEN [m EXCEPT !.failed = TRUE]
  ELSE LET i == Place(m.fn, n)
       IN IF m.slots[i] # <<>> THEN [m EXCEPT !.failed = TRUE] ELSE [m EXCEPT !.slots[i] = <<x>>]
BindEnd(m) ==
  IF \E i \in DOMAIN m.slots : Signatures[m.fn][i].must /\ m.slots[i] = <<>> THEN [m EXCEPT !.failed = TRUE] ELSE m
=============================================================================
