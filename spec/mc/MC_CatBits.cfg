CONSTANTS N = 4
SPECIFICATION Spec
INVARIANT Refines
CHECK_DEADLOCK FALSE
