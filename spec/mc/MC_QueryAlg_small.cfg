CONSTANTS Top = 3
 NCats = 2
 MaxStr = 1
 MaxCP = 3
 NW = 1
 BW = 2
 Cats <- MCCats
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS AlgOK SelOK TableOK
CHECK_DEADLOCK FALSE
