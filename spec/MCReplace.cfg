SPECIFICATION Spec
INVARIANT SearchRefines DenotationAgrees ReplaceAgrees
CHECK_DEADLOCK FALSE
