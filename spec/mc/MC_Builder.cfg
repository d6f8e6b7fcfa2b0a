CONSTANTS Depth = 2
 Emit = TRUE
 MaxCP = 1114111
 Cats <- MCCats
 Runs <- MCRuns
 Slots <- MCSlots
 NewVersions <- OneVersion
SPECIFICATION Spec
INVARIANTS BuilderOK EqualOK Printed
CHECK_DEADLOCK FALSE
