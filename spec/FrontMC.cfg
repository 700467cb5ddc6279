SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Runs = 2
INVARIANTS Agrees Sound
