SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS Decoded Length Signed Mismatch Marked AllAttr
CHECK_DEADLOCK FALSE
