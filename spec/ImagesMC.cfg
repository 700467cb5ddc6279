SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Seeds = {1, 2, 3} Depth = 5
INVARIANT FunctionOfSeed
