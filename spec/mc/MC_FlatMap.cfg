CONSTANTS Top = 7
 MaxCP = 7
 Cats = {1}
 Runs <- MCRuns
 Slots <- MCSlots
SPECIFICATION Spec
INVARIANTS SameReply SameRest
CHECK_DEADLOCK FALSE
