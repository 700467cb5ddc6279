------------------------------ MODULE AgentGen ------------------------------
(* Random histories of agents: building (at random or from a vector), writing,*)
(* reading and acting, with other agents and the random generators moving on  *)
(* in between.  Printed as scenarios for the real code.                       *)
EXTENDS YucaAgents, Json, TLC

Slots == 1..3
Shapes == 1..2
Vecs == 1..3
VARIABLES kinds, hist, done
vars == <<kinds, hist, done>>

Init == kinds = [a \in Slots |-> "none"] /\ hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r)
New == \E a \in Slots, k \in {"cppn", "plus", "rule"}, s \in Shapes, v \in 0..3, w \in 0..3, f \in BOOLEAN, ca \in BOOLEAN :
         /\ kinds' = [kinds EXCEPT ![a] = k]
         /\ Log([op |-> "new", a |-> a, kind |-> k, shape |-> s, v |-> v, w |-> w, filter |-> f, ca |-> ca])
Live == {a \in Slots : kinds[a] # "none"}
Set == \E a \in Live, v \in Vecs, w \in Vecs : Log([op |-> "set", a |-> a, v |-> v, w |-> w]) /\ UNCHANGED kinds
Get == \E a \in Live : Log([op |-> "get", a |-> a]) /\ UNCHANGED kinds
Act == \E a \in Live, part \in {"both", "pattern", "rule"} : Log([op |-> "act", a |-> a, part |-> part]) /\ UNCHANGED kinds
Copy == \E a \in Live, b \in Live : a # b /\ kinds[a] = kinds[b] /\ Log([op |-> "copy", a |-> a, b |-> b]) /\ UNCHANGED kinds
Noise == \E n \in 1..5 : Log([op |-> "noise", n |-> n]) /\ UNCHANGED kinds
Device == \E a \in Live : Log([op |-> "device", a |-> a]) /\ UNCHANGED kinds

\* the operation is drawn first: otherwise the many ways to build drown the rest
Next ==
  \/ /\ ~done /\ Len(hist) < 14
     /\ UNCHANGED done
     /\ \E o \in {RandomElement(1..12)} :
          IF Len(hist) < 2 \/ Live = {} THEN New
          ELSE CASE o \in 1..2 -> New
                 [] o \in 3..4 -> Set
                 [] o \in 5..6 -> Get
                 [] o \in 7..10 -> Act
                 [] o = 11 -> (IF ENABLED Copy THEN Copy ELSE Act)
                 [] o = 12 -> (Noise \/ Device)
  \/ /\ ~done /\ Len(hist) = 14
     /\ done' = TRUE /\ UNCHANGED <<kinds, hist>>
     /\ PrintT("SCENARIO|" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
