SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Letters = {37, 50, 53, 65, 47, 63, 35, 58, 64, 233, 91, 38, 32}
INVARIANTS Kept Read Equal
CHECK_DEADLOCK FALSE
