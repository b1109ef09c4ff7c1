SPECIFICATION Spec
INVARIANT Allowed
INVARIANT SameLanguage
CHECK_DEADLOCK FALSE
