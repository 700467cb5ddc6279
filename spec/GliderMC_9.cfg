SPECIFICATION Spec
CONSTANTS N = 9
INVARIANTS FiveCells Glides Returns Isotropic
CHECK_DEADLOCK FALSE
