SPECIFICATION Spec
INVARIANT CallAccepted
INVARIANT SameLanguage
INVARIANT NoTwins
INVARIANT Isomorphic
CHECK_DEADLOCK FALSE
