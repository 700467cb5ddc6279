----------------------------- MODULE AgentTrace -----------------------------
(* Recorded histories of the real agents against YucaAgents.                  *)
EXTENDS YucaAgents, TraceBase

VARIABLES tid, l, ag, seen, verdict
vars == <<tid, l, ag, seen, verdict>>
T == Traces[tid]
\* T.shapes[s] = [ch, d]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ ag = [a \in 1..3 |-> NoAgent]
        /\ seen = {}
        /\ verdict = {}

Shape(a) == T.shapes[a.shape]
\* what is already known to be the pattern of this vector on this shape
Known(a) == {x \in seen : x.shape = a.shape /\ x.pat = a.pat}

PatternFails(a, e) ==
  Fail("action-shape", e.dims = <<1, Shape(a).ch, Shape(a).d, Shape(a).d>>) \cup
  Fail("pure-function", \A x \in Known(a) : x.act = e.act) \cup
  Fail("non-negative", e.lowest >= 0) \cup
  (IF Len(e.cells) = 0 THEN {} ELSE
   Fail("envelope", \A c \in 1..Shape(a).ch, i \in 1..Shape(a).d, j \in 1..Shape(a).d :
                      UnderCell(e.cells[c][i][j], e.tiny[c][i][j], i, j, Shape(a).d)))

\* a vector is written: the parts the agent has
Written(a, e) == [a EXCEPT !.pat = IF HasPattern(a) THEN e.pat ELSE 0,
                           !.rule = IF HasRule(a) THEN (IF a.filter /\ e.k = "set" THEN Filtered(e.rule) ELSE e.rule) ELSE <<>>]
Born(e) == [kind |-> e.kind, shape |-> e.shape, pat |-> e.pat, rule |-> e.rule, filter |-> e.filter]

Fails(e) ==
  CASE e.k \in {"new", "set", "noise", "device"} -> {}
    [] e.k = "get" ->
         LET a == ag[e.a] IN
         (IF HasPattern(a) THEN Fail("reads-back-pattern", e.pat = a.pat) ELSE {}) \cup
         (IF HasRule(a) THEN Fail("reads-back-rule", e.rule = a.rule \/ (a.filter /\ e.rule = Filtered(a.rule))) ELSE {}) \cup
         Fail("layout", e.rest = 0)
    [] e.k = "act" ->
         LET a == ag[e.a] IN
         (IF e.haspat THEN PatternFails(a, e) ELSE {}) \cup
         (IF e.hasrule THEN Fail("rule-action", e.raction = RuleAction(a)) ELSE {})
    [] e.k = "pool" -> Fail("callers-vectors", e.same)
    [] e.k = "full" ->
         Fail("action-shape", e.dims = <<1, e.ch, e.d, e.d>>) \cup
         Fail("full-pattern", Len(e.cells) = e.ch /\ \A c \in 1..e.ch : Len(e.cells[c]) = e.d /\ \A i \in 1..e.d, j \in 1..e.d :
                IF e.on[c] THEN FullCell(e.cells[c][i][j], e.tiny[c][i][j], i, j, e.d)
                ELSE EmptyCell(e.cells[c][i][j], e.tiny[c][i][j]))
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, ag, seen>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ ag' = CASE e.k = "new" -> [ag EXCEPT ![e.a] = Born(e)]
                           [] e.k = "set" -> [ag EXCEPT ![e.a] = Written(@, e)]
                           [] OTHER -> ag
                /\ seen' = IF e.k = "act" /\ e.haspat THEN seen \cup {[shape |-> ag[e.a].shape, pat |-> ag[e.a].pat, act |-> e.act]} ELSE seen

Spec == Init /\ [][Next]_vars
=============================================================================
