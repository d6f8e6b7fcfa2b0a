CONSTANTS N = 4
 MostCount = 3
SPECIFICATION Spec
INVARIANTS PassInv DoneInv
PROPERTY Ends_
CHECK_DEADLOCK FALSE
