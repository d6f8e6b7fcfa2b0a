CONSTANTS N = 3
 Anywhere = TRUE
SPECIFICATION Spec
INVARIANTS AllOrNothing Text Printed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
