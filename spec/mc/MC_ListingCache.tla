-------------------------- MODULE MC_ListingCache --------------------------
EXTENDS ListingCache, Json

CONSTANTS Calls, Emit

\* Version 3 is the default one.
MCVers == 1 .. 3
Asked == 0 .. 3
MCPrograms == [Threads -> UNION { [1 .. n -> Asked] : n \in 1 .. Calls }]

\* The programs are what the real module is driven with.
Printed == (Emit /\ made = 0 /\ gil = 0 /\ (\A t \in Threads : pc[t] = "idle" /\ got[t] = <<>>)) =>
              PrintT("SCEN " \o ToJson([i \in 1 .. Cardinality(Threads) |-> prog[i]]))
=============================================================================
