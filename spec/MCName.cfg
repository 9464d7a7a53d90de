SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxOut = 3
INVARIANTS Idempotent Shape Insensitive
CHECK_DEADLOCK FALSE
