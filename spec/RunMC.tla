------------------------------- MODULE RunMC --------------------------------
(* The serial evolution run as a state machine over abstract genotypes:       *)
(* evaluate one individual at a time, then select, log and either resample    *)
(* or (last generation, or a flat population after Patience) rank and stop.   *)
(* Elites are K of N; the next population is written slot by slot.            *)
EXTENDS YucaEvo

CONSTANTS N, K, Gens, Patience, Levels

VARIABLES pop, gen, fit, evals, elites, slot, log, phase, fresh, prev
vars == <<pop, gen, fit, evals, elites, slot, log, phase, fresh, prev>>

Half == K \div 2
Init == /\ pop = [i \in 1..N |-> i] /\ gen = 0 /\ fit = <<>> /\ evals = [i \in 1..N |-> 0]
        /\ elites = <<>> /\ slot = 0 /\ log = [g |-> -1, ef |-> <<>>, last |-> FALSE] /\ phase = "eval" /\ fresh = N + 1 /\ prev = pop

Evaluate ==
  /\ phase = "eval" /\ Len(fit) < N
  /\ \E v \in Levels : fit' = Append(fit, v)
  /\ evals' = [evals EXCEPT ![Len(fit) + 1] = @ + 1]
  /\ UNCHANGED <<pop, gen, elites, slot, log, phase, fresh, prev>>

Flat == Max(fit) = Min(fit)
Last == gen = Gens - 1 \/ (Flat /\ gen > Patience)
Draws(mode) ==      \* the elite places a mode may choose
  {e \in [1..K -> 1..N] :
     LET ids == [j \in 1..K |-> pop[e[j]]] IN
     CASE mode = 0 -> Truncated(pop, fit, ids)
       [] mode = 1 -> TRUE
       [] mode = 2 -> DistinctDraw(pop, ids)}

Select ==
  /\ phase = "eval" /\ Len(fit) = N
  /\ \E mode \in 0..2 : \E e \in Draws(IF Last THEN 0 ELSE mode) :
       LET ids == [j \in 1..K |-> pop[e[j]]] IN
       /\ elites' = ids
       /\ log' = [g |-> gen, ef |-> EFit(pop, fit, ids), last |-> Last]
  /\ phase' = IF Last THEN "done" ELSE "write"
  /\ prev' = pop
  /\ slot' = 1
  /\ UNCHANGED <<pop, gen, fit, evals, fresh>>

Write ==
  /\ phase = "write" /\ slot <= N
  /\ pop' = [pop EXCEPT ![slot] = IF slot <= Half THEN elites[slot] ELSE fresh]
  /\ fresh' = IF slot <= Half THEN fresh ELSE fresh + 1
  /\ slot' = slot + 1
  /\ UNCHANGED <<gen, fit, evals, elites, log, phase, prev>>

Begin ==
  /\ phase = "write" /\ slot = N + 1
  /\ phase' = "eval" /\ gen' = gen + 1 /\ fit' = <<>> /\ evals' = [i \in 1..N |-> 0]
  /\ pop' = [i \in 1..N |-> i] /\ fresh' = N + 1 /\ elites' = <<>> /\ slot' = 0 /\ prev' = pop'   \* genotypes renamed
  /\ UNCHANGED log

Next == Evaluate \/ Select \/ Write \/ Begin
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnceEach == phase # "eval" => \A i \in 1..N : evals[i] = 1
ElitesFromPopulation == phase = "write" => Known(prev, elites)
NextPopulation == (phase = "write" /\ slot = N + 1) =>
   /\ Len(pop) = N
   /\ \A j \in 1..Half : Count(pop, elites[j]) >= 1
   /\ Cardinality({i \in 1..N : pop[i] \in Range(prev)}) = Half
Ranked == phase = "done" => (log.ef[1] = Max(fit) /\ BestFirst(log.ef) /\ TrulyBest(fit, log.ef))
Stops == phase = "done" => (log.g = gen /\ (gen = Gens - 1 \/ (gen > Patience /\ Max(fit) = Min(fit))))
NeverOverrun == phase # "done" => ~log.last
Ends == <>(phase = "done")
=============================================================================
