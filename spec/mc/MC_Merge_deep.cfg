CONSTANTS Top = 4
 Most = 4
 Emit = TRUE
 MaxCP = 4
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv Printed
CHECK_DEADLOCK FALSE
PROPERTY Proved
