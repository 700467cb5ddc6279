SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Soups = 2 Limit = 3 Absorbing = FALSE
INVARIANTS LastOk StopOk NoEarly Mono Sane
