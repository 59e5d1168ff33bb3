SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Tiling
INVARIANT LineCol
INVARIANT LongestMatch
PROPERTY Progress
CHECK_DEADLOCK FALSE
