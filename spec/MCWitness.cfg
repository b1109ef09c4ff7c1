SPECIFICATION Spec
INVARIANT Path Member Shortest Agree Visited
PROPERTY Ends
CHECK_DEADLOCK FALSE
