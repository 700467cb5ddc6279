SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Depth = 4
 Pop = 8
INVARIANT Inv
CHECK_DEADLOCK FALSE
