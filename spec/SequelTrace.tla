----------------------------- MODULE SequelTrace -----------------------------
(* Recorded chains of experiments.  State: the files written so far (what is *)
(* in them as their writer knew it) and the experiment under way.            *)
EXTENDS YucaSequel, TraceBase, SequencesExt

VARIABLES tid, l, files, run, ids, verdict
vars == <<tid, l, files, run, ids, verdict>>
T == Traces[tid]
None == [kind |-> "none"]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ files = <<>> /\ run = None /\ ids = <<>> /\ verdict = {}

Abs(x) == IF x < 0 THEN -x ELSE x
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Column(vs, j) == FoldLeft(LAMBDA a, v : a + v[j], 0, vs)
\* mean of vectors of integers, each rounded
MeanIs(vs, m) == \A j \in DOMAIN m : Abs(Len(vs) * m[j] - Column(vs, j)) <= Len(vs) + 1
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : Abs(a[i][j] - b[i][j]) <= tol

GivenNow(e) == Given(files, e.log, e.size, e.n)

OpenFails(e) ==
  LET gv == GivenNow(e)
      want == RuleOf(files, e.log, e.cfg, e.default)
  IN
  Fail("rule", \/ e.rule = want
               \/ e.free) \cup                                 \* the family does not read the log itself
  (IF gv = <<>> THEN (IF e.kind = "pattern" THEN {} ELSE Fail("starts-at-rule", e.mrule = e.rule))
   ELSE Fail("starts-at-mean", MeanIs([i \in DOMAIN gv |-> files[e.log].vecs[i]], e.mean))) \cup
  (IF e.cfg = 0 \/ e.rule # want THEN {} ELSE Fail("steps-as-saved", Near(e.frame, files[e.cfg].frame, 2)))

EvalFails(e) ==
  Fail("own-rule", IF run.kind = "pattern" THEN e.before = run.rule /\ e.after = run.rule ELSE e.after = e.own)

FirstFails ==   \* the first generation of a seed
  Fail("takes-over", \A x \in ToSet(run.given) : Count(ids, x) >= Count(run.given, x)) \cup
  Fail("full-population", Len(ids) = run.n)

EndFails(e) ==
  Fail("elites", Len(e.elites) = Keep(run.n)) \cup
  Fail("saved-rule", e.saved = RuleLeft(run.kind, run.rule, e.best)) \cup
  Fail("logged-rules", Len(e.logged) = Len(e.elites) /\
                       \A i \in DOMAIN e.logged : e.logged[i] = RuleLeft(run.kind, run.rule, e.parts[i])) \cup
  Fail("same-steps", Near(e.sframe, e.lframe, 2)) \cup
  Fail("kept-steps", run.kind # "pattern" \/ Near(e.sframe, run.frame, 2))

Fails(e) ==
  CASE e.k = "shipped" -> {}
    [] e.k = "open" -> OpenFails(e)
    [] e.k = "eval" -> EvalFails(e)
    [] e.k = "first" -> FirstFails
    [] e.k = "end" -> EndFails(e)
    [] OTHER -> {"unknown-event"}

Kernel(e) == KernelOf(files, e.cfg, "default")

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, files, run, ids>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ CASE e.k = "shipped" ->
                          /\ files' = Append(files, [kind |-> "rule", elites |-> <<>>, vecs |-> <<>>, size |-> 0, rule |-> e.rule,
                                                     kernel |-> e.name, frame |-> e.frame])
                          /\ UNCHANGED <<run, ids>>
                     [] e.k = "open" ->
                          /\ run' = [kind |-> e.kind, n |-> e.n, size |-> e.size, given |-> GivenNow(e), rule |-> e.rule,
                                     kernel |-> Kernel(e), frame |-> e.frame]
                          /\ ids' = <<>> /\ UNCHANGED files
                     [] e.k = "eval" -> ids' = (IF e.first THEN Append(ids, e.id) ELSE ids) /\ UNCHANGED <<files, run>>
                     [] e.k = "first" -> ids' = <<>> /\ UNCHANGED <<files, run>>
                     [] e.k = "end" ->
                          /\ files' = Append(files, [kind |-> run.kind, elites |-> e.elites, vecs |-> e.vecs, size |-> run.size,
                                                     rule |-> RuleLeft(run.kind, run.rule, e.best), kernel |-> run.kernel,
                                                     frame |-> e.sframe])
                          /\ UNCHANGED <<run, ids>>
                     [] OTHER -> UNCHANGED <<files, run, ids>>

Spec == Init /\ [][Next]_vars
=============================================================================
