------------------------------ MODULE SequelMC ------------------------------
(* Chains of experiments over few individuals.  Evolution is left open: any  *)
(* individuals may win.  What is shown is what the files carry from one       *)
(* experiment to the next.                                                   *)
EXTENDS YucaSequel, TLC

CONSTANTS Ids, Depth, Pop
ASSUME /\ Depth \in Nat /\ Pop \in Nat
VARIABLES files, run
vars == <<files, run>>

Size(kind) == IF kind = "rule" THEN 4 ELSE 9
Default == 0
None == [kind |-> "none"]
\* the rules an individual stands for: itself, here
Init == files = <<>> /\ run = None

Open ==
  /\ run = None /\ Len(files) < Depth
  /\ \E kind \in {"rule", "pattern"}, log \in 0..Len(files), cfg \in 0..Len(files) :
       /\ (log # 0 /\ cfg = 0) => files[log].kind = "rule"
       /\ run' = [kind |-> kind, log |-> log, cfg |-> cfg, given |-> Given(files, log, Size(kind), Pop),
                  rule |-> RuleOf(files, log, cfg, Default), kernel |-> KernelOf(files, cfg, Default)]
  /\ UNCHANGED files

\* any elites may come out; one given and never beaten stays the best
Finish ==
  /\ run # None
  /\ \E a, b \in Ids :
       /\ a # b
       /\ LET el == SubSeq(<<a, b>>, 1, Least(Keep(Pop), 2))
          IN files' = Append(files, [kind |-> run.kind, elites |-> el, size |-> Size(run.kind), kernel |-> run.kernel,
                                     rule |-> RuleLeft(run.kind, run.rule, el[1]), log |-> run.log, cfg |-> run.cfg])
  /\ run' = None

Next == Open \/ Finish
Spec == Init /\ [][Next]_vars

F == DOMAIN files
\* the two ways of carrying on from a search for rules agree
RoutesAgree == \A f \in F : files[f].kind = "rule" => RuleOf(files, f, 0, Default) = RuleOf(files, 0, f, Default)
\* a chain of searches for patterns keeps the rules of its first configuration
Lineage == \A f \in F : (files[f].kind = "pattern" /\ files[f].cfg # 0) =>
             files[f].rule = files[files[f].cfg].rule /\ files[f].kernel = files[files[f].cfg].kernel
\* no rules appear from nowhere
Origin == \A f \in F : files[f].rule = Default \/ \E h \in 1..f : files[h].kind = "rule" /\ files[h].elites[1] = files[f].rule
\* what is taken over is the winner's share, best first
Taken == run # None => /\ Len(run.given) <= Keep(Pop)
                       /\ run.given # <<>> => run.given[1] = files[run.log].elites[1]
                       /\ (run.kind = "rule" /\ run.log # 0 /\ run.cfg = 0) => run.given[1] = run.rule
Inv == RoutesAgree /\ Lineage /\ Origin /\ Taken
=============================================================================
