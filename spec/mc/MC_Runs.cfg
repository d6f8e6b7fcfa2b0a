CONSTANTS Emit = TRUE
 MaxCP = 11
 NW = 4
 BW = 3
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv RangeOK Printed
PROPERTY Ends_
CHECK_DEADLOCK FALSE
