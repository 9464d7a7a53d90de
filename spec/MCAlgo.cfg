SPECIFICATION Spec
INVARIANTS Consistent Wrapped
CHECK_DEADLOCK FALSE
