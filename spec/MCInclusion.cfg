SPECIFICATION Spec
INVARIANT Sound Merged Agree
CHECK_DEADLOCK FALSE
