SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Confs = 2 MaxIter = 2 MaxSteps = 3 Errors = {1, 2, 3, 4} Threshold = 2
INVARIANTS SavedBest StopsWhenMet Enough
