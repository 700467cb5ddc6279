SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS FiveCells Glides Returns Isotropic
CHECK_DEADLOCK FALSE
