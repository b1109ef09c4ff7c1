SPECIFICATION Spec
INVARIANT InBounds Stored Owned Doubling Pending
PROPERTY Done
CHECK_DEADLOCK FALSE
