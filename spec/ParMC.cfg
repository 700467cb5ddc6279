SPECIFICATION Spec
CONSTANTS MaxArms = 3
 MaxPop = 4
 MaxRounds = 2
INVARIANTS OnceEach OwnFitness NearEqual NothingUnread
PROPERTIES Ends
