CONSTANTS Top = 4
 NCats = 2
 MaxStr = 1
 MaxCP = 4
 NW = 2
 BW = 2
 Cats <- MCCats
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS AlgOK SelOK TableOK
CHECK_DEADLOCK FALSE
