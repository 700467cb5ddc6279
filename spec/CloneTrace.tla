----------------------------- MODULE CloneTrace ------------------------------
(* Recorded clonings of the real code against YucaClone.                       *)
EXTENDS YucaClone, TraceBase
VARIABLES tid, l, s, verdict
vars == <<tid, l, s, verdict>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = NoRun /\ verdict = {}
Tie == 20      \* errors are recorded in units of 1e-6

Fails(e) ==
  CASE e.k = "source" ->
         Fail("earlier-saved", s.saved) \cup Fail("in-order", s.c < Len(T.confs)) \cup
         (IF s.c < Len(T.confs) THEN Fail("source", e.name = T.confs[s.c + 1]) ELSE {})
    [] e.k = "new" ->
         Fail("has-source", s.c > 0 /\ ~s.saved) \cup
         Fail("stops-when-met", ~s.met) \cup
         Fail("restart", MayNew(s, T.iterations, T.steps)) \cup
         Fail("hidden-width", e.hidden = Width(s.it + 1, T.start, T.cap)) \cup
         Fail("channels", e.external = e.sexternal /\ e.internal = e.sinternal)
    [] e.k = "step" ->
         Fail("stops-when-met", ~s.met) \cup
         Fail("step-limit", s.it > 0 /\ s.st < T.steps) \cup
         Fail("newest-network", e.newest) \cup
         Fail("own-kernel", e.kernel) \cup
         Fail("own-update", e.target) \cup
         Fail("gradients", e.grad)
    [] e.k = "save" ->
         Fail("save-time", MaySave(s, T.iterations, T.steps)) \cup
         Fail("best-weights", e.w \in s.keep) \cup
         Fail("kernel-saved", e.kernel) \cup
         Fail("file-name", e.file = T.files[s.c])
    [] e.k = "end" ->
         Fail("every-configuration-saved", s.saved /\ s.c = Len(T.confs)) \cup
         Fail("files", {e.files[k].name : k \in 1..Len(e.files)} = {T.files[k] : k \in 1..Len(T.files)}) \cup
         Fail("last-saved-stays", \A k \in 1..Len(e.files) : e.files[k].intact) \cup
         Fail("configuration-changed", e.untouched) \cup
         Fail("arguments-changed", e.args)
    [] OTHER -> {"unknown-event"}

After(e) ==
  CASE e.k = "source" -> NewConf(s)
    [] e.k = "new" -> [s EXCEPT !.it = s.it + 1, !.st = 0]
    [] e.k = "step" -> Stepped(s, e.err, e.w, T.threshold, Tie)
    [] e.k = "save" -> [s EXCEPT !.saved = TRUE]
    [] OTHER -> s
Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, s>> ELSE l' = l + 1 /\ s' = TLCEval(After(e)) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
