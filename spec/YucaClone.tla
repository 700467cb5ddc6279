------------------------------ MODULE YucaClone ------------------------------
(* Cloning: for each source configuration up to MaxIter networks are trained   *)
(* for up to MaxSteps steps each; every step shows the error of the current     *)
(* weights.  What is saved for a configuration is the weights that showed the   *)
(* lowest error; training of a configuration stops at the first error below     *)
(* the threshold.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* hidden width of the k-th network
RECURSIVE Width(_, _, _)
Width(k, start, cap) == IF k = 1 THEN start ELSE LET w == (Width(k - 1, start, cap) * 5) \div 4 IN IF w > cap THEN cap ELSE w

\* state: c configuration, it networks so far, st steps of this network, best error, keep what to save, met
NoRun == [c |-> 0, it |-> 0, st |-> 0, best |-> -1, keep |-> {}, met |-> FALSE, saved |-> TRUE]
NewConf(s) == [NoRun EXCEPT !.c = s.c + 1, !.saved = FALSE]
\* errors within Tie of each other cannot be told apart
Better(err, s) == s.best = -1 \/ err < s.best
Stepped(s, err, w, threshold, tie) ==
  [s EXCEPT !.st = s.st + 1,
            !.best = IF Better(err, s) THEN err ELSE s.best,
            !.keep = IF s.best = -1 \/ err < s.best - tie THEN {w} ELSE IF err <= s.best + tie THEN s.keep \cup {w} ELSE s.keep,
            !.met = s.met \/ err < threshold]
MayStep(s, maxsteps) == s.it > 0 /\ ~s.met /\ s.st < maxsteps
MayNew(s, maxiter, maxsteps) == ~s.met /\ s.it < maxiter /\ (s.it = 0 \/ s.st = maxsteps)
MaySave(s, maxiter, maxsteps) == ~s.saved /\ (s.met \/ (s.it = maxiter /\ s.st = maxsteps))
=============================================================================
