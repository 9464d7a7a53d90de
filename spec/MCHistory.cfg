SPECIFICATION Spec
CONSTANTS
  Threads = 1
  Len1 = 3
  Len2 = 1
  Kinds = {"map", "fields"}
  ExportLen = 3
INVARIANTS Right Whole Alone
CHECK_DEADLOCK TRUE
