SPECIFICATION Spec
INVARIANT NamesAreRight
CHECK_DEADLOCK FALSE
