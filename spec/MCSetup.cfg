SPECIFICATION Spec
CONSTANTS
  Threads = 2
  Len1 = 1
  Len2 = 1
  Kinds = {"map", "fields"}
  ExportLen = 3
INVARIANTS Right Whole Alone
CHECK_DEADLOCK TRUE
