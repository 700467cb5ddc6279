SPECIFICATION Spec
INVARIANT VectorsFit
CHECK_DEADLOCK FALSE
