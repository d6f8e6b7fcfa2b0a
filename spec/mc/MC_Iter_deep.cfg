CONSTANTS Depth = 4
 Emit = TRUE
 MaxCP = 1114111
 Cats <- MCCats
 Runs <- MCRuns
 Slots <- MCSlots
 ShapeNumbers <- AllShapes
SPECIFICATION Spec
INVARIANTS OnceOK ReplyOK Printed
PROPERTY StaysExhausted
CHECK_DEADLOCK FALSE
