SPECIFICATION Spec
INVARIANT HashConsed Complements Meaning Cache LastMeans
PROPERTY TableAllows Stable
CHECK_DEADLOCK FALSE
