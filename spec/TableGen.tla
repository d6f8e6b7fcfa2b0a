------------------------------ MODULE TableGen ------------------------------
(***************************************************************************)
(* The script that regenerates the tables of one version                   *)
(* (generate_tables.py): fetch the database of that version, have it       *)
(* turned into Rust source by an outside tool, drop the names from the     *)
(* list of lists, write the table file.  Each stage can fail; the table    *)
(* file changes only in the last one.                                      *)
(***************************************************************************)
EXTENDS Unicode, Intervals

Stages == << "fetch", "unpack", "generate", "transform", "write" >>

\* What can go wrong, and in which stage.
StageOf(fault) ==
  CASE fault \in {"noarg", "twoargs"} -> 0
    [] fault \in {"http", "network", "short"} -> 1
    [] fault \in {"notzip"} -> 2
    [] fault \in {"toolfails", "toolmissing"} -> 3
    [] fault \in {"listmissing"} -> 4
    [] OTHER -> 6
Faults == { "none", "noarg", "twoargs", "http", "network", "short", "notzip", "toolfails", "toolmissing", "listmissing" }

---------------------------------------------------------------------------
(* The text: lines of tokens.  A name line holds entries ("Name", NAME),   *)
(* each of three tokens: open, reference, close.  Other lines are comments *)
(* or definitions and may happen to mention a name.                        *)

Tok(t, n) == [t |-> t, n |-> n]
Entry(n) == << Tok("open", n), Tok("ref", n), Tok("close", 0) >>
Plain(n) == << Tok("ref", n), Tok("comma", 0) >>

\* names, laid out with `per` entries on a line
NameLines(ns, per) ==
  [i \in 1 .. ((Len(ns) + per - 1) \div per) |->
     FlattenSeq([j \in 1 .. (IF i * per <= Len(ns) THEN per ELSE Len(ns) - (i - 1) * per) |-> Entry(ns[(i - 1) * per + j])])]
PlainLines(ns, per) ==
  [i \in 1 .. ((Len(ns) + per - 1) \div per) |->
     FlattenSeq([j \in 1 .. (IF i * per <= Len(ns) THEN per ELSE Len(ns) - (i - 1) * per) |-> Plain(ns[(i - 1) * per + j])])]

HasEntry(line, n) == \E i \in DOMAIN line : line[i] = Tok("open", n)
Mentions(line, n) == \E i \in DOMAIN line : line[i].n = n /\ line[i].t \in {"open", "word"}

\* Drop the name of one category: on the first line that has it.
DropIn(line, n) ==
  LET kept == SelectSeq(line, LAMBDA x : x # Tok("open", n))
  IN [i \in DOMAIN kept |-> IF kept[i].t = "close" THEN Tok("comma", 0) ELSE kept[i]]
LinesWith(lines, n, P(_, _)) == { i \in DOMAIN lines : P(lines[i], n) }
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
DropName(lines, n, P(_, _)) ==
  LET k == Least(LinesWith(lines, n, P)) IN [lines EXCEPT ![k] = DropIn(@, n)]

---------------------------------------------------------------------------
(* What a run must do, as seen from outside. *)

\* The thirty lists of a database given as runs [lo, hi, category].
ListsOf(runs) ==
  [k \in 1 .. 30 |-> LET s == SelectSeq(runs, LAMBDA x : x[3] = k) IN Normal([i \in DOMAIN s |-> << s[i][1], s[i][2] >>], 1114111)]

\* e.fault, e.prior ("none", "dir", "old"); reply: exit (0 or 1), usage, file, lists
GenOK(e) ==
  /\ e.r.others = 0                                        \* nothing else was changed
  /\ IF e.fault = "none"
     THEN /\ e.r.exit = 0 /\ e.r.usage = 0
          /\ e.r.file = "table"
          /\ e.r.lists = ListsOf(e.runs)
     ELSE /\ e.r.exit = 1
          /\ e.r.usage = (IF e.fault \in {"noarg", "twoargs"} THEN 1 ELSE 0)
          /\ e.r.file = "same"
=============================================================================
