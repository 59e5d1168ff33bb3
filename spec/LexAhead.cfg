SPECIFICATION Spec
INVARIANT LooksNoFurther
CHECK_DEADLOCK FALSE
