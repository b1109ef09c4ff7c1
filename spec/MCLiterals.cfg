SPECIFICATION Spec
INVARIANT ParserDecodes PendingFits InRange NoLonger PrintDenotes
CHECK_DEADLOCK FALSE
