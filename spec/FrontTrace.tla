----------------------------- MODULE FrontTrace -----------------------------
(* Recorded requests to the real front end (called, or run as a command line), *)
(* several after one another in one process, against YucaFront.                *)
EXTENDS YucaFront, TraceBase

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = {}

Fails(e) ==
  LET r == [tag |-> e.tag, ca |-> e.ca, env |-> e.env, dtype |-> e.dtype]
      o == Outcome(r)
  IN CASE e.k = "request" ->
       IF ~o.start THEN Fail("refused", e.raised) \cup Fail("nothing-started", e.built = 0 /\ e.searches = 0)
       ELSE IF e.raised THEN {"raised: " \o e.exc}
       ELSE Fail("one-search", e.built = 1 /\ e.searches = 1) \cup
            Fail("kind-of-search", e.algorithm = o.algorithm /\ e.agent = o.agent) \cup
            Fail("environment", e.envc = o.env) \cup
            Fail("automaton", e.cac = o.ca) \cup
            Fail("precision", e.precision = o.precision) \cup
            Fail("two-species", r.ca = "RxnDfn" => e.channels = 2) \cup
            (IF e.way = "live" THEN
               Fail("settings", \A n \in DOMAIN e.given : n \in DOMAIN e.got => e.got[n] = e.given[n]) \cup
               Fail("grid-precision", e.gprecision = o.precision)
             ELSE
               Fail("options-lost " \o ToString(Lost(r, e.given, e.got)), Lost(r, e.given, e.got) = {}) \cup
               Fail("options-invented " \o ToString(Invented(r, e.given, e.got)), e.way = "call" => Invented(r, e.given, e.got) = {}))
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l>> ELSE l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
