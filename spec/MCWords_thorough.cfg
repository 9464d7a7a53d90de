SPECIFICATION Spec
CONSTANT Most = 4
INVARIANTS Whole Same Made Exact
CHECK_DEADLOCK FALSE
