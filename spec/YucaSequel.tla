----------------------------- MODULE YucaSequel -----------------------------
(* Experiments that start where others ended.  An experiment leaves a log    *)
(* (the final elites, best first) and a configuration (the rules of its best  *)
(* individual).  Another may be opened with a log, a configuration, both or   *)
(* neither.  Individuals are rules, patterns, or both (co-evolution); rules   *)
(* and individuals are identified by number.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a < b THEN a ELSE b
Keep(n) == n \div 8 + 1

\* a file: [kind, elites, size, rule, kernel]; 0 stands for "not given"

\* the individuals an experiment of population n and individuals of this size takes over
Given(files, log, size, n) ==
  IF log = 0 THEN <<>>
  ELSE IF files[log].size # size THEN <<>>
  ELSE SubSeq(files[log].elites, 1, Least(Keep(n), Len(files[log].elites)))

\* the rules an experiment begins with; a configuration comes before a log,
\* and only the log of a search for rules tells which rules won
RuleOf(files, log, cfg, default) ==
  IF cfg # 0 THEN files[cfg].rule
  ELSE IF log # 0 /\ files[log].kind = "rule" THEN files[log].rule
  ELSE default

\* kernels come from configurations only
KernelOf(files, cfg, default) == IF cfg # 0 THEN files[cfg].kernel ELSE default

\* a search for patterns leaves the rules alone; any other is left with its best
RuleLeft(kind, rule, best) == IF kind = "pattern" THEN rule ELSE best
=============================================================================
