SPECIFICATION Spec
CONSTANT Most = 3
INVARIANTS Whole Same Made Exact
CHECK_DEADLOCK FALSE
