SPECIFICATION Spec
INVARIANT ClockNonNegative
CHECK_DEADLOCK FALSE
