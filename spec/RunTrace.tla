------------------------------ MODULE RunTrace ------------------------------
(* Whole evolution runs.  State: the generation, the evaluations made in it,  *)
(* the elites and mean of the generation before.  Evaluations come from the   *)
(* environment, the logged generations from the log file the run wrote.       *)
EXTENDS YucaEvo, TraceBase

VARIABLES tid, l, g, ids, fit, fp, last, elites, mean, ended, verdict
vars == <<tid, l, g, ids, fit, fp, last, elites, mean, ended, verdict>>
T == Traces[tid]
SF == 64     \* rewards are integers over 64; fitness over 64 * replicates

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ g = 0 /\ ids = <<>> /\ fit = <<>> /\ fp = <<>> /\ last = <<>>
        /\ elites = <<>> /\ mean = T.mean0 /\ ended = FALSE
        /\ verdict = {}

R == T.reps
Sq(s) == [i \in DOMAIN s |-> s[i] * s[i]]
\* n^2 times the variance of the fitness integers
NV(f) == Len(f) * Sum(Sq(f)) - Sum(f) * Sum(f)
Flat(f) == NV(f) <= (SF * SF * R * R * Len(f) * Len(f) - 1) \div 2500     \* standard deviation below 1/50

EvalFails(e) ==
  Fail("within-run", ~ended) \cup
  Fail("once-each", Len(ids) < T.n) \cup
  Fail("replicates", Len(e.rewards) = R) \cup
  Fail("full-evaluation", \A i \in DOMAIN e.budget : e.budget[i] = T.budget) \cup
  Fail("fitness-is-mean-reward", e.fit = Sum(e.rewards)) \cup
  Fail("same-conditions", fp = <<>> \/ e.fp = fp) \cup
  Fail("own-parameters", e.id = e.aid)

GivenFails == Fail("given-elites", \A x \in Range(T.given) : Count(ids, x) >= Count(T.given, x))

LogFails(e) ==
  LET n == T.n
      final == e.g + 1 = T.gens \/ (e.g > 6 /\ Flat(fit))
  IN
  Fail("evaluated-once", Len(ids) = n) \cup
  Fail("generation", e.g = g) \cup
  (IF Len(ids) # n THEN {} ELSE
   Fail("mean", EAbs(e.mean * n - 16 * Sum(fit)) <= n) \cup
   Fail("max", e.max = Max(fit)) \cup
   Fail("min", e.min = Min(fit)) \cup
   Fail("std", EAbs(e.std * e.std - 64 * (NV(fit) \div (n * n))) <= 4 * e.std + 100) \cup
   Fail("stops-in-time", final = e.last) \cup
   (IF e.eids = <<>> THEN {} ELSE
    Fail("elites-kept", Len(e.eids) = Keep(n)) \cup
    Fail("elites-from-population", Known(ids, e.eids)) \cup
    (IF ~Known(ids, e.eids) THEN {} ELSE
     (IF final \/ T.mode = 0 THEN Fail("truly-best", Truncated(ids, fit, e.eids)) ELSE {}) \cup
     (IF T.mode = 2 THEN Fail("distinct-elites", DistinctDraw(ids, e.eids)) ELSE {})) \cup
    Fail("elite-configs", e.cids = e.rids) \cup
    Fail("distribution-mean", MeanIs(e.evec, e.mvec)) \cup
    (IF mean = <<>> THEN {} ELSE Fail("distribution-covariance", CovIs(e.evec, mean, e.cov)))) \cup
   (IF g = 0 THEN GivenFails \cup (IF T.given = <<>> THEN Fail("starts-distinct", Cardinality(Range(ids)) = n) ELSE {})
    ELSE IF elites = <<>> THEN {}
    ELSE Fail("survivors", Survives(elites, n, ids)) \cup
         (IF e.spread THEN Fail("others-fresh", OthersFresh(last, elites, n, ids)) ELSE {})))

Fails(e) ==
  CASE e.k = "eval" -> EvalFails(e)
    [] e.k = "log" -> LogFails(e)
    [] e.k = "end" -> Fail("ended", ended) \cup Fail("all-logged", ids = <<>>) \cup
                       Fail("population-size", e.size = T.n)
    [] e.k = "saved" ->   \* the configuration file of the run
         Fail("one-config", e.paths = 1) \cup Fail("best-config", e.rid = e.best)
    [] e.k = "shown" ->   \* the pictures a run ends with are of its elites, and of all of them
         Fail("shows-elites-only", Range(e.ids) \subseteq Range(e.eids)) \cup
         Fail("shows-every-elite", Range(e.eids) \subseteq Range(e.ids))
    [] e.k = "same" -> Fail(e.what, e.a = e.b)
    [] e.k = "differ" -> Fail(e.what, e.a # e.b)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, g, ids, fit, fp, last, elites, mean, ended>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ CASE e.k = "eval" -> /\ ids' = Append(ids, e.id) /\ fit' = Append(fit, e.fit)
                                        /\ fp' = e.fp /\ UNCHANGED <<g, last, elites, mean, ended>>
                     [] e.k = "log" -> /\ g' = g + 1 /\ ids' = <<>> /\ fit' = <<>> /\ fp' = <<>>
                                       /\ last' = ids /\ elites' = e.eids
                                       /\ mean' = e.mvec /\ ended' = e.last
                     [] OTHER -> UNCHANGED <<g, ids, fit, fp, last, elites, mean, ended>>

Spec == Init /\ [][Next]_vars
=============================================================================
