CONSTANTS
 Threads = {1, 2}
 Vers <- MCVers
 Default = 3
 Programs <- MCPrograms
 SwitchInInit = TRUE
 Locking = TRUE
 Calls = 1
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS RightListing OneObject MadeOnce GilHeld Printed
PROPERTIES WriteOnce Served
