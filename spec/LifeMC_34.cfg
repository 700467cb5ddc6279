SPECIFICATION Spec
CONSTANTS H = 3
 W = 4
INVARIANTS Refines Equivariant
CHECK_DEADLOCK FALSE
