CONSTANTS N = 3
 Anywhere = FALSE
SPECIFICATION Spec
INVARIANTS AllOrNothing Text Printed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
