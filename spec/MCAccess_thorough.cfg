SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS Decoded Length Signed Mismatch Marked AllAttr
CHECK_DEADLOCK FALSE
