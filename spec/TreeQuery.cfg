SPECIFICATION Spec
CONSTANT Part = "query"
INVARIANT ShowsTheTree
CHECK_DEADLOCK FALSE
