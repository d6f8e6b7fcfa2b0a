CONSTANTS Top = 3
 NCats = 2
 MaxStr = 2
 MaxCP = 3
 Cats <- MCCats
 Runs <- MCRuns
SPECIFICATION Spec
INVARIANTS AnswerOK ClampLaw CharLaw SetLaw SinglesLaw
CHECK_DEADLOCK FALSE
