SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS BigBang = 8
Soups = 8
