---------------------------- MODULE MC_TableGen ----------------------------
(* The script, stage by stage, for every fault, every state of the table    *)
(* file before, every layout of the tool's output and every header line.    *)
(* Names are dropped in any order.  Situations are printed for replay.       *)
EXTENDS TableGen, TLC, Json
CONSTANTS N, Anywhere
Names == [i \in 1 .. N |-> i]
Headers == { "plain", "space", "named", "quote", "strange" }
Header(h) == IF h = "named" THEN << Tok("word", 1), Tok("word", N) >> ELSE << Tok("word", 0) >>
Defs == [i \in 1 .. N |-> << Tok("def", i) >>]
Match(line, n) == IF Anywhere THEN Mentions(line, n) ELSE HasEntry(line, n)

VARIABLES fault, prior, per, header,    \* the situation
          stage, todo, lines, file, code
sit == <<fault, prior, per, header>>
vars == <<sit, stage, todo, lines, file, code>>

Init ==
  /\ fault \in Faults /\ prior \in {"none", "dir", "old"} /\ per \in 1 .. N /\ header \in Headers
  /\ stage = 0 /\ todo = {} /\ lines = <<>> /\ file = (IF prior = "old" THEN "old" ELSE "absent") /\ code = -1

Running == code = -1
Fails(k) == StageOf(fault) = k
Quit == code' = 1 /\ UNCHANGED <<sit, stage, todo, lines, file>>

Args == /\ Running /\ stage = 0
        /\ IF Fails(0) THEN Quit ELSE stage' = 1 /\ UNCHANGED <<sit, todo, lines, file, code>>
Fetch == /\ Running /\ stage = 1
         /\ IF Fails(1) THEN Quit ELSE stage' = 2 /\ UNCHANGED <<sit, todo, lines, file, code>>
Unpack == /\ Running /\ stage = 2
          /\ IF Fails(2) THEN Quit ELSE stage' = 3 /\ UNCHANGED <<sit, todo, lines, file, code>>
Generate ==
  /\ Running /\ stage = 3
  /\ IF Fails(3) THEN Quit
     ELSE /\ stage' = 4 /\ todo' = 1 .. N
          /\ lines' = << Header(header) >>
                      \o NameLines(IF fault = "listmissing" THEN SubSeq(Names, 2, N) ELSE Names, per) \o Defs
          /\ UNCHANGED <<sit, file, code>>
Drop == /\ Running /\ stage = 4 /\ todo # {}
        /\ \E n \in todo :
             IF LinesWith(lines, n, Match) = {} THEN Quit
             ELSE /\ lines' = DropName(lines, n, Match) /\ todo' = todo \ {n}
                  /\ UNCHANGED <<sit, stage, file, code>>
Dropped == Running /\ stage = 4 /\ todo = {} /\ stage' = 5 /\ UNCHANGED <<sit, todo, lines, file, code>>
Write == Running /\ stage = 5 /\ file' = "new" /\ code' = 0 /\ UNCHANGED <<sit, stage, todo, lines>>

Next == Args \/ Fetch \/ Unpack \/ Generate \/ Drop \/ Dropped \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == /\ (file = "new" <=> code = 0)
                /\ (code = 0 => fault = "none") /\ (code = 1 => fault # "none")
Text == code = 0 => lines = << Header(header) >> \o PlainLines(Names, per) \o Defs
Finishes == <>(code # -1)
Printed == code = -1 \/ PrintT("SCEN " \o ToJson([fault |-> fault, prior |-> prior, per |-> per, header |-> header]))
=============================================================================
