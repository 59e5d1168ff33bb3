SPECIFICATION Spec
CONSTANT Part = "visit"
INVARIANT ShowsTheTree
CHECK_DEADLOCK FALSE
