------------------------------- MODULE CloneMC -------------------------------
(* Every error trajectory over a few values: what is saved is the weights of a *)
(* step with the least error of that configuration, and nothing is trained      *)
(* after the threshold was met.                                                *)
EXTENDS YucaClone
CONSTANTS Confs, MaxIter, MaxSteps, Errors, Threshold
VARIABLES s, hist, saved, weights
vars == <<s, hist, saved, weights>>
\* hist: [c, err, w] of every step; weights: a counter naming the current weights
Init == s = NewConf(NoRun) /\ hist = <<>> /\ saved = <<>> /\ weights = 0
New == /\ MayNew(s, MaxIter, MaxSteps) /\ s' = [s EXCEPT !.it = s.it + 1, !.st = 0] /\ weights' = weights + 1 /\ UNCHANGED <<hist, saved>>
Step == /\ MayStep(s, MaxSteps)
        /\ \E e \in Errors : /\ s' = Stepped(s, e, weights, Threshold, 0)
                             /\ hist' = Append(hist, [c |-> s.c, err |-> e, w |-> weights])
        /\ weights' = weights + 1 /\ UNCHANGED saved
Save == /\ MaySave(s, MaxIter, MaxSteps) /\ saved' = Append(saved, s.keep)
        /\ s' = (IF s.c < Confs THEN NewConf(s) ELSE [s EXCEPT !.saved = TRUE]) /\ UNCHANGED <<hist, weights>>
Next == New \/ Step \/ Save
Spec == Init /\ [][Next]_vars
Of(c) == {k \in 1..Len(hist) : hist[k].c = c}
Least(c) == {k \in Of(c) : \A j \in Of(c) : hist[k].err <= hist[j].err}
SavedBest == \A c \in 1..Len(saved) : saved[c] = {hist[k].w : k \in Least(c)}
StopsWhenMet == \A k \in 1..Len(hist) : hist[k].err < Threshold => ~\E j \in Of(hist[k].c) : j > k
Enough == \A c \in 1..Len(saved) : (\E k \in Of(c) : hist[k].err < Threshold) \/ Cardinality(Of(c)) = MaxIter * MaxSteps
ASSUME \A st \in 1..40, cap \in 1..60 : \A k \in 2..6 : LET w == Width(k, st, cap) IN w <= cap
ASSUME Width(1, 32, 2048) = 32 /\ Width(2, 32, 2048) = 40 /\ Width(3, 32, 2048) = 50 /\ Width(4, 32, 2048) = 62 /\ Width(2, 16, 16) = 16
=============================================================================
