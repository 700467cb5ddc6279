------------------------------ MODULE EvoTrace ------------------------------
(* Update by update: recorded selections of the real evolution strategy       *)
(* against YucaEvo.  State: the individuals and the search distribution.      *)
EXTENDS YucaEvo, TraceBase

VARIABLES tid, l, ids, mean, verdict
vars == <<tid, l, ids, mean, verdict>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ ids = <<>>
        /\ mean = <<>>
        /\ verdict = {}

Chosen(e) ==
  IF ~Known(ids, e.eids) THEN {"elites-from-population"} ELSE
  CASE e.mode = 0 -> Fail("truly-best", Truncated(ids, e.fit, e.eids))
    [] e.mode = 1 -> IF Len(e.brackets) = Keep(e.n) THEN Fail("bracket-champions", Champions(ids, e.fit, e.eids, e.brackets)) ELSE {}
    [] e.mode = 2 -> Fail("distinct-elites", DistinctDraw(ids, e.eids))

Dist(e) ==
  Fail("elites-kept", Len(e.eids) = Keep(e.n)) \cup
  Fail("mean", MeanIs(e.evec, e.mean)) \cup
  Fail("covariance", CovIs(e.evec, mean, e.cov))

Next1(e) ==
  Fail("population-size", Len(e.ids) = e.n) \cup
  Fail("survivors", Survives(e.eids, e.n, e.ids)) \cup
  (IF HasSpread(e.cov)
   THEN Fail("others-fresh", OthersFresh(ids, e.eids, e.n, e.ids)) \cup
        (IF Keep(e.n) = 1 THEN Fail("on-line", \A i \in DOMAIN e.pop : OnLine(e.mean, mean, e.pop[i])) ELSE {}) \cup
        (IF e.n >= 400 THEN Fail("sampled-from", SampledFrom(SubSeq(e.pop, Surv(e.n) + 1, e.n), e.mean, e.cov)) ELSE {})
   ELSE {})

Fails(e) ==
  CASE e.k = "init" ->
         Fail("population-size", Len(e.ids) = e.n) \cup
         Fail("given-elites", \A x \in Range(e.given) : Count(e.ids, x) >= Count(e.given, x)) \cup
         Fail("others-fresh", Cardinality(Range(e.ids)) = e.n) \cup
         Fail("start-mean", e.mean = e.start) \cup
         Fail("start-spread", \A a \in DOMAIN e.cov : e.cov[a][a] > 0 /\ \A b \in DOMAIN e.cov : a # b => e.cov[a][b] = 0) \cup
         (IF e.n >= 400 THEN Fail("sampled-from", SampledFrom(SubSeq(e.pop, Len(e.given) + 1, e.n), e.mean, e.cov)) ELSE {})
    [] e.k = "put" -> {}
    [] e.k = "update" -> Chosen(e) \cup Dist(e) \cup Next1(e)
    [] e.k = "rank" -> Chosen([e EXCEPT !.mode = 0]) \cup Dist(e) \cup Fail("population-kept", e.ids = ids)
    [] e.k = "tally" -> 
         Fail("selection-odds", IF e.mode = 1 THEN TallyOk(e.counts, LAMBDA r : ChampP(e.n, r))
                                ELSE TallyOk(e.counts, LAMBDA r : PropP(e.n, r)))
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, ids, mean>>
           ELSE /\ l' = l + 1
                /\ ids' = IF e.k \in {"init", "put", "update", "rank"} THEN e.ids ELSE ids
                /\ mean' = IF e.k \in {"init", "put", "update", "rank"} THEN e.mean ELSE mean
                /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
