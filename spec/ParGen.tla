------------------------------ MODULE ParGen --------------------------------
(* Random interleavings of YucaPar, printed as schedules (0 = rank 0).        *)
EXTENDS YucaPar, Json
VARIABLES hist, printed
gvars == <<vars, hist, printed>>
GInit == Init /\ hist = <<>> /\ printed = FALSE
Step(p, A) == A /\ hist' = Append(hist, p) /\ UNCHANGED printed
GNext ==
  \/ ~Over /\ (Step(0, Mantle) \/ \E a \in Arms : Step(a, Arm(a)))
  \/ Over /\ ~printed /\ printed' = TRUE /\ UNCHANGED <<vars, hist>>
     /\ PrintT("SCENARIO|" \o ToJson([arms |-> arms, pop |-> pop, rounds |-> rounds, sync |-> sync, sched |-> hist]))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
