SPECIFICATION Spec
CONSTANT Oracle = "sim"
CONSTANT Kinds = {"p", "e", "am", "fc", "cs", "te", "er", "en", "ex", "m", "a", "x", "rm"}
CONSTANT CmpTree = TRUE
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
