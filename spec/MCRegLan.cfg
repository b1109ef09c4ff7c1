SPECIFICATION Spec
INVARIANT Refines UniformCells UniformClasses CoarserThanCells LoopsAsSums EmptyDecided EarlyStop
CHECK_DEADLOCK FALSE
