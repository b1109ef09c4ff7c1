SPECIFICATION Spec
INVARIANT OnceEach Exact Refused Invariant
PROPERTY Ends
CHECK_DEADLOCK FALSE
