CONSTANTS Depth = 14
 Emit = TRUE
 MaxCP = 1114111
 Cats <- MCCats
 Runs <- MCRuns
 Slots <- MCSlots
 NewVersions <- SomeVersions
SPECIFICATION Spec
INVARIANTS BuilderOK EqualOK Printed
CHECK_DEADLOCK FALSE
