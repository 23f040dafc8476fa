SPECIFICATION Spec
INVARIANTS Unambiguous
CHECK_DEADLOCK FALSE
