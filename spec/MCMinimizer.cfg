SPECIFICATION Spec
INVARIANT NonEmptyBlocks Listed ActiveListed Fine Covered Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
