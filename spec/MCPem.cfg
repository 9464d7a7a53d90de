SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxOut = 4
INVARIANTS Agrees Bounded WritesBack
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
