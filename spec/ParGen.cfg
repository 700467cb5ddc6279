SPECIFICATION GSpec
CONSTANTS MaxArms = 5
 MaxPop = 11
 MaxRounds = 3
INVARIANTS OnceEach OwnFitness NothingUnread
CHECK_DEADLOCK FALSE
