CONSTANTS Top = 8
 Emit = TRUE
 MaxCP = 6
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv Printed
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
PROPERTY Proved
