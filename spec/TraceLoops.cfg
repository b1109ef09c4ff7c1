SPECIFICATION Spec
INVARIANT CallAccepted
CHECK_DEADLOCK FALSE
