SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  CurveNames = {"secp256r1", "sect113r1", "secp521r1"}
INVARIANTS Fixed FixedIn Agree
CHECK_DEADLOCK FALSE
