CONSTANTS Top = 4
 Most = 3
 Emit = TRUE
 MaxCP = 4
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv Printed
PROPERTY Ends_
CHECK_DEADLOCK FALSE
PROPERTY Proved
