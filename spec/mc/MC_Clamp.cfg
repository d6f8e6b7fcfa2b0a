CONSTANTS Top = 7
 MaxCP = 7
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS LoopInv DoneInv
PROPERTY Ends_
CHECK_DEADLOCK FALSE
PROPERTY Proved
INVARIANT Skips
