CONSTANT Top = 6
SPECIFICATION Spec
INVARIANTS Equiv Complete
CHECK_DEADLOCK FALSE
