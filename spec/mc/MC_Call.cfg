CONSTANTS
  MaxPos = 3
  Foreign = {"", "category", "Version", "self"}
  Named2 = 2
SPECIFICATION Spec
INVARIANTS Right Printed
PROPERTY Steady
CHECK_DEADLOCK FALSE
