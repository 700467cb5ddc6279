SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Depth = 3
 Pop = 8
INVARIANT Inv
CHECK_DEADLOCK FALSE
