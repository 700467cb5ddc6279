------------------------------ MODULE MetaTrace ------------------------------
(* The meta automaton: its update accumulates in a momentum grid that lives   *)
(* until reset or a change of shape; the grid moves by dt times the momentum. *)
(* Momentum is kept over 4 * SX*SI*SG*E*I (ddt = 1/4); all channels share it. *)
EXTENDS YucaRule, TraceBase

VARIABLES tid, l, mom, shape, verdict
vars == <<tid, l, mom, shape, verdict>>
T == Traces[tid]
r == T.rule
Init == tid \in 1..Len(Traces) /\ l = 1 /\ mom = <<>> /\ shape = <<>> /\ verdict = {}

MS == 4 * r.SX * r.SI * r.SG * r.E * r.I

\* momentum of batch member b after a step on grids e.g
NewMom(e) ==
  [b \in 1..Len(e.g) |->
     LET u == TLCEval(Masked(r, e.g[b]))
         p == TLCEval(StepPlane(r, u))
     IN IF shape = e.shape /\ mom # <<>>
        THEN [y \in 1..Len(p) |-> [x \in 1..Len(p[1]) |-> mom[b][y][x] + p[y][x]]]
        ELSE p]
Out(e, m) ==
  [b \in 1..Len(e.g) |->
     LET u == TLCEval(Masked(r, e.g[b])) IN
     [c \in 1..r.E |-> [y \in 1..Height(u[c]) |-> [x \in 1..Width(u[c]) |->
        Clamp(u[c][y][x] * (MS \div r.SX) * r.dtd + r.dtn * m[b][y][x], 0, MS * r.dtd)]]]]

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         m == IF e.ok /\ e.k = "step" THEN TLCEval(NewMom(e)) ELSE <<>>
         f == IF ~e.ok THEN {"raised: " \o e.exc}
              ELSE CASE e.k = "step" -> Fail("cells", e.out = Out(e, m)) \cup Fail("input-mutated", e.pure)
                     [] e.k = "reset" -> {}
                     [] OTHER -> {"unknown-event"}
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, mom, shape>>
           ELSE /\ l' = l + 1
                /\ mom' = IF e.k = "step" THEN m ELSE <<>>
                /\ shape' = IF e.k = "step" THEN e.shape ELSE <<>>
                /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
