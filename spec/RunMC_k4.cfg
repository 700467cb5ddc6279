SPECIFICATION Spec
CONSTANTS N = 4
 K = 4
 Gens = 2
 Patience = 0
 Levels = {0, 1}
INVARIANTS OnceEach ElitesFromPopulation NextPopulation Ranked Stops NeverOverrun
PROPERTIES Ends
CHECK_DEADLOCK FALSE
