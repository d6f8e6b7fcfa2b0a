CONSTANTS
 Threads = {1}
 Vers <- MCVers
 Default = 3
 Programs <- MCPrograms
 SwitchInInit = FALSE
 Locking = TRUE
 Calls = 5
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS RightListing OneObject MadeOnce GilHeld Printed
PROPERTIES WriteOnce Served
