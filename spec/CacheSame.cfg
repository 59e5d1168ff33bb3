SPECIFICATION Spec
INVARIANT SameAutomaton
CHECK_DEADLOCK FALSE
