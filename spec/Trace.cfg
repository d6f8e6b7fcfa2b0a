CONSTANTS
  MaxCP <- TrMaxCP
  Cats <- TrCats
  Runs <- TrRuns
  Slots <- TrSlots
SPECIFICATION Spec
VIEW Line
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
