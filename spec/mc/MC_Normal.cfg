CONSTANTS Top = 5
 N = 3
INIT Init
NEXT Next
INVARIANT NormalOK
CHECK_DEADLOCK FALSE
