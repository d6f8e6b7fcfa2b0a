CONSTANTS Depth = 2
 Emit = TRUE
 MaxCP = 1114111
 Cats <- MCCats
 Runs <- MCRuns
 Slots <- MCSlots
SPECIFICATION Spec
INVARIANTS ContentOK ViewOK Printed
CHECK_DEADLOCK FALSE
