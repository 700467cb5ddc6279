SPECIFICATION Spec
CONSTANTS N = 4
 K = 2
 Gens = 2
 Patience = 0
 Levels = {0, 1, 2}
INVARIANTS OnceEach ElitesFromPopulation NextPopulation Ranked Stops NeverOverrun
PROPERTIES Ends
CHECK_DEADLOCK FALSE
