SPECIFICATION Spec
INVARIANT AnswersAreExpected
INVARIANT DefinitionsAgree
CHECK_DEADLOCK FALSE
