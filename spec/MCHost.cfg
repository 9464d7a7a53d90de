SPECIFICATION Spec
CONSTANTS
  MaxNames = 1
  Wide = TRUE
INVARIANTS EachAlone Listed CaseBlind Structure
CHECK_DEADLOCK FALSE
