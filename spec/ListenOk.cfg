SPECIFICATION Spec
INVARIANT ListenersSeeTheTree
CHECK_DEADLOCK FALSE
