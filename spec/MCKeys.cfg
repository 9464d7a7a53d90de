SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  CurveNames = {"secp256r1", "sect113r1"}
INVARIANTS Fixed FixedIn Agree
CHECK_DEADLOCK FALSE
