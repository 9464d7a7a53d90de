SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 31, 48, 63, 127, 128, 129, 130, 191, 255}
  MaxLen = 5
INVARIANTS Pieces PrefixFree EmitInverse
CHECK_DEADLOCK FALSE
