SPECIFICATION FSpec
CONSTANT MaxLen = 5
INVARIANT OnChannel
INVARIANT OrderedLookahead
INVARIANT LookIsRead
INVARIANT BackInverts
CHECK_DEADLOCK FALSE
