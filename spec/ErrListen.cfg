SPECIFICATION Spec
INVARIANT EveryListenerHearsEverything
CHECK_DEADLOCK FALSE
