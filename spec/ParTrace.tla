------------------------------ MODULE ParTrace ------------------------------
(* Recorded parallel runs against what YucaPar guarantees: in every round     *)
(* each individual is evaluated once, by some arm, with its own parameters,   *)
(* under the generation's random stream; the collected list holds each        *)
(* individual's own fitness, the one a serial evaluation gives; the arms      *)
(* share the work evenly and all stop.                                        *)
EXTENDS YucaEvo, TraceBase

VARIABLES tid, l, evals, hist, verdict
vars == <<tid, l, evals, hist, verdict>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ evals = <<>> /\ hist = <<>>
        /\ verdict = {}

EvIds == [j \in DOMAIN evals |-> evals[j].id]
By(a) == Cardinality({j \in DOMAIN evals : evals[j].rank = a})

CollectFails(e) ==
  Fail("whole-population", Len(e.ids) = T.n /\ Len(e.fit) = T.n) \cup
  Fail("once-each", \A x \in Range(e.ids) \cup Range(EvIds) : Count(EvIds, x) = Count(e.ids, x)) \cup
  (IF Len(e.fit) # Len(e.ids) \/ ~(Range(e.ids) \subseteq Range(EvIds)) THEN {}
   ELSE Fail("own-fitness", \A i \in DOMAIN e.ids : e.fit[i] \in {evals[j].fit : j \in {k \in DOMAIN evals : evals[k].id = e.ids[i]}})) \cup
  Fail("as-serial", e.fit = e.sfit) \cup
  Fail("every-worker-works", T.n >= T.w => \A a \in 1..T.w : By(a) >= 1) \cup
  Fail("near-equal", \A a \in 1..T.w : \A b \in 1..T.w : By(a) <= By(b) + 1)

Fails(e) ==
  CASE e.k = "eval" ->
         Fail("own-parameters", e.id = e.aid) \cup
         Fail("replicates", e.reps = T.reps) \cup
         Fail("full-evaluation", \A i \in DOMAIN e.budget : e.budget[i] = 77) \cup
         Fail("generation-seed", e.fp = e.want)
    [] e.k = "collect" -> CollectFails(e)
    [] e.k = "end" ->
         Fail("no-deadlock", ~e.deadlock) \cup Fail("all-stop", e.alive = <<>>) \cup
         Fail("nothing-unread", e.unread = 0) \cup Fail("nothing-uncollected", evals = <<>>)
    [] e.k = "log" ->
         IF e.i > Len(hist) THEN {"logged-unevaluated"} ELSE
         LET h == hist[e.i] IN
         Fail("mean", EAbs(e.mean * T.n - 16 * Sum(h.fit)) <= T.n) \cup
         Fail("max", e.max = Max(h.fit)) \cup Fail("min", e.min = Min(h.fit)) \cup
         Fail("elites", Known(h.ids, e.eids)) \cup
         (IF T.mode = 0 /\ Known(h.ids, e.eids) THEN Fail("truly-best", Truncated(h.ids, h.fit, e.eids)) ELSE {})
    [] e.k = "logs" -> Fail("every-generation-logged", e.n = Len(hist))
    [] e.k = "real" -> Fail("as-serial", e.fit = e.sfit)
    [] e.k = "launch" ->
         IF e.workers <= 1 THEN Fail("evaluates-itself", e.launched = 0 /\ e.evals >= 3 /\ e.exited = 0)
         ELSE Fail("launches-once", e.launched = 1) \cup Fail("that-many", e.np = e.workers) \cup
              Fail("same-command", e.same) \cup Fail("marked", e.marked /\ ~e.inmpi) \cup
              Fail("then-stops", e.exited = 1 /\ e.evals = 0)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, evals, hist>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ CASE e.k = "eval" -> evals' = Append(evals, e) /\ UNCHANGED hist
                     [] e.k = "collect" -> evals' = <<>> /\ hist' = Append(hist, [ids |-> e.ids, fit |-> e.fit])
                     [] OTHER -> UNCHANGED <<evals, hist>>

Spec == Init /\ [][Next]_vars
=============================================================================
