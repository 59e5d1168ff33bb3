SPECIFICATION Spec
INVARIANT Related
CHECK_DEADLOCK FALSE
