SPECIFICATION Spec
CONSTANTS H = 3
 W = 3
INVARIANTS Refines Equivariant
CHECK_DEADLOCK FALSE
