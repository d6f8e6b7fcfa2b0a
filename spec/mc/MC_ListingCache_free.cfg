CONSTANTS
 Threads = {1, 2}
 Vers <- MCVers
 Default = 3
 Programs <- MCPrograms
 SwitchInInit = FALSE
 Locking = FALSE
 Calls = 2
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS RightListing OneObject MadeOnce GilHeld Printed
PROPERTIES WriteOnce Served
