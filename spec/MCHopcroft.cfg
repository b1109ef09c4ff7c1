SPECIFICATION Spec
INVARIANT IsPartition Sound Covered Minimal Same
PROPERTY Decreases
CHECK_DEADLOCK FALSE
