SPECIFICATION Spec
CONSTANTS
  MaxNames = 2
  Wide = FALSE
INVARIANTS EachAlone Listed CaseBlind Structure
CHECK_DEADLOCK FALSE
