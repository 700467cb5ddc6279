SPECIFICATION Spec
CONSTANTS N = 3
 K = 2
 Gens = 3
 Patience = 0
 Levels = {0, 1, 2}
INVARIANTS OnceEach ElitesFromPopulation NextPopulation Ranked Stops NeverOverrun
PROPERTIES Ends
CHECK_DEADLOCK FALSE
