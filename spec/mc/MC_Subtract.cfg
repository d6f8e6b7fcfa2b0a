CONSTANTS Top = 6
 Emit = TRUE
 MaxCP = 6
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv Printed
PROPERTIES Shrinks Ends_
CHECK_DEADLOCK FALSE
PROPERTY Proved
