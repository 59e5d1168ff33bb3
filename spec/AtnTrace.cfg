SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Expected
INVARIANT NotRefused
CHECK_DEADLOCK FALSE
