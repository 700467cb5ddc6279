SPECIFICATION Spec
CONSTANTS MaxArms = 4
 MaxPop = 6
 MaxRounds = 3
INVARIANTS OnceEach OwnFitness NearEqual NothingUnread
