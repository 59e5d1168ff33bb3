SPECIFICATION Spec
INVARIANT SameTruth
CHECK_DEADLOCK FALSE
