SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxOut = 3
INVARIANTS Idempotent Shape Insensitive
CHECK_DEADLOCK FALSE
