SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxOut = 5
INVARIANTS Agrees Bounded WritesBack
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
