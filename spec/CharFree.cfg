SPECIFICATION FSpec
CONSTANT Alpha = {1, 2}
CONSTANT MaxLen = 4
INVARIANT InRange
INVARIANT OrderedLookahead
INVARIANT Refusal
INVARIANT ReadOnly
CHECK_DEADLOCK FALSE
