CONSTANTS
 Threads = {1, 2}
 Vers <- MCVers
 Default = 3
 Programs <- MCPrograms
 SwitchInInit = FALSE
 Locking = TRUE
 Calls = 2
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS RightListing OneObject MadeOnce GilHeld Printed
PROPERTIES WriteOnce Served
