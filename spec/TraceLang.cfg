SPECIFICATION Spec
INVARIANT CallAccepted
INVARIANT LangAgrees
INVARIANT Included
CHECK_DEADLOCK FALSE
