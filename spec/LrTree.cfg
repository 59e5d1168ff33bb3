SPECIFICATION Spec
INVARIANT BindsRight
CHECK_DEADLOCK FALSE
