SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Soups = 3 Limit = 4 Absorbing = TRUE
INVARIANTS LastOk StopOk NoEarly Mono Sane
