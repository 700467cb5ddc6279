------------------------------- MODULE CATrace -------------------------------
(* Conformance of recorded CA executions with YucaRule.  State: the rule in  *)
(* force, the current grid, the simulated clock (in 1/64) and the number of  *)
(* steps taken.  One event per public call; previews ("frame") are steps     *)
(* that must not change the state.                                           *)
EXTENDS YucaRule, TraceBase

VARIABLES tid, l, rule, grid, clock, verdict
vars == <<tid, l, rule, grid, clock, verdict>>

T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ rule = Traces[tid].rule
        /\ grid = <<>>
        /\ clock = 0
        /\ verdict = {}

ClockScale == 64

\* what the event must satisfy, given expected successor grid `nxt`
StepFails(e, nxt) ==
  Fail("cells", e.out = nxt) \cup
  Fail("input-mutated", e.pure) \cup
  (IF "t" \in DOMAIN e THEN
     Fail("clock", e.t = clock + (IF e.k = "step" THEN (rule.dtn * ClockScale) \div rule.dtd ELSE 0))
   ELSE {}) \cup
  (IF "nb" \in DOMAIN e THEN
     Fail("neighbourhood", \A k \in 1..rule.I : \A y \in 1..Height(grid[1]) : \A x \in 1..Width(grid[1]) :
              e.nb[k][y][x] = Nbhd(rule, Masked(rule, grid), k, y, x))
   ELSE {}) \cup
  (IF "up" \in DOMAIN e THEN
     Fail("update", \A c \in 1..rule.E : \A y \in 1..Height(grid[1]) : \A x \in 1..Width(grid[1]) :
              e.up[c][y][x] = Update(rule, Masked(rule, grid), y, x))
   ELSE {})

Descale(g, m) == [c \in 1..Len(g) |-> [y \in 1..Len(g[c]) |-> [x \in 1..Len(g[c][y]) |-> g[c][y][x] \div m]]]

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     IF ~e.ok
     THEN /\ verdict' = {"raised: " \o e.exc}
          /\ Report(T.id, l, e.k, verdict')
          /\ UNCHANGED <<tid, l, rule, grid, clock>>
     ELSE CASE e.k = "put" ->
            /\ grid' = e.g /\ l' = l + 1
            /\ UNCHANGED <<tid, rule, clock, verdict>>
       [] e.k = "dt" ->      \* set_dt; reported value must be the one set
            /\ rule' = [rule EXCEPT !.dtn = e.n, !.dtd = e.d]
            /\ LET f == Fail("reported-dt", e.got = (e.n * ClockScale) \div e.d) IN
               /\ verdict' = f
               /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
               /\ l' = IF f = {} THEN l + 1 ELSE l
            /\ UNCHANGED <<tid, grid, clock>>
       [] e.k = "reset" ->
            /\ clock' = 0
            /\ LET f == Fail("reset-clock", e.t = 0) IN
               /\ verdict' = f
               /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
               /\ l' = IF f = {} THEN l + 1 ELSE l
            /\ UNCHANGED <<tid, grid, rule>>
       [] e.k \in {"step", "frame"} ->
            LET nxt == TLCEval(Step(rule, grid))
                f   == StepFails(e, nxt)
                m   == OutScale(rule) \div rule.SX
            IN /\ verdict' = f
               /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
               /\ l' = IF f = {} THEN l + 1 ELSE l
               /\ clock' = IF e.k = "step" /\ f = {} THEN clock + (rule.dtn * ClockScale) \div rule.dtd ELSE clock
               /\ grid' = IF e.k = "step" /\ f = {} /\ e.chain THEN Descale(nxt, m) ELSE grid
               /\ UNCHANGED <<tid, rule>>
       [] OTHER ->
            /\ verdict' = {"unknown-event"}
            /\ Report(T.id, l, e.k, verdict')
            /\ UNCHANGED <<tid, l, rule, grid, clock>>

Spec == Init /\ [][Next]_vars

\* a chained step must be exactly representable on the input scale
TypeOK == /\ verdict \subseteq STRING
          /\ \A c \in 1..Len(grid) : \A y \in 1..Len(grid[c]) : \A x \in 1..Len(grid[c][y]) :
                grid[c][y][x] \in 0..rule.SX
=============================================================================
