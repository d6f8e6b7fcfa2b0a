CONSTANTS Top = 9
 MaxCP = 9
 NW = 1
 BW = 1
 Cats = {1}
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS ByCount Agree Proved
CHECK_DEADLOCK FALSE
