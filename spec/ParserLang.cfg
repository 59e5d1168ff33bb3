SPECIFICATION Spec
INVARIANT AcceptsLanguage
CHECK_DEADLOCK FALSE
