------------------------------- MODULE ZooGen -------------------------------
(* Random histories of a zoo, printed as scenarios for the real librarian.    *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES n, hist, done
vars == <<n, hist, done>>
Init == n = 0 /\ hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r)
Store == /\ n' = n + 1
         /\ \E b \in {RandomElement(1..4)}, arr \in {RandomElement(1..4)}, m \in {RandomElement(1..8)}, v \in {RandomElement(BOOLEAN)}, how \in {RandomElement(0..3)} :
              Log([op |-> "store", base |-> b, arr |-> arr, meta |-> m, verbose |-> v, how |-> how])
Load == n > 0 /\ UNCHANGED n /\ \E k \in {RandomElement(1..n)} : Log([op |-> "load", entry |-> k])
Index == UNCHANGED n /\ \E fresh \in {RandomElement(BOOLEAN)} : Log([op |-> "index", fresh |-> fresh])
Stranger == UNCHANGED n /\ \E s \in {RandomElement(1..6)} : Log([op |-> "stranger", kind |-> s])
Crop == UNCHANGED n /\ \E arr \in {RandomElement(1..4)}, a \in {RandomElement(0..3)}, b \in {RandomElement(0..6)}, c \in {RandomElement(0..3)}, d \in {RandomElement(0..6)} :
           Log([op |-> "crop", arr |-> arr, a |-> a, b |-> b, c |-> c, d |-> d])
Next ==
  \/ /\ ~done /\ Len(hist) < 16 /\ UNCHANGED done
     /\ \E o \in {RandomElement(1..12)} :
          IF n = 0 \/ o <= 5 THEN Store
          ELSE CASE o \in 6..8 -> Load [] o = 9 -> Index [] o = 10 -> Index [] o = 11 -> Stranger [] OTHER -> Crop
  \/ /\ ~done /\ Len(hist) = 16 /\ done' = TRUE /\ UNCHANGED <<n, hist>>
     /\ PrintT("SCENARIO|" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
