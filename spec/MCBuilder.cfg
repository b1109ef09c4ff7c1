SPECIFICATION Spec
INVARIANT Refines Pointwise
CHECK_DEADLOCK FALSE
