----------------------------- MODULE ConfTrace -----------------------------
(* Conformance of recorded configuration histories.  The state is the set of  *)
(* abstract configurations of the live automata, what was last observed of    *)
(* each, the saved files, and every (configuration, behaviour) pair seen: the *)
(* behaviour of an automaton must be a function of its configuration, and the *)
(* one YucaConf prescribes wherever that can be computed exactly.             *)
(* T.prop selects which law the history is judged by (C04, C05 or C06).       *)
EXTENDS YucaConf, TraceBase

VARIABLES tid, l, cas, last, files, seen, verdict
vars == <<tid, l, cas, last, files, seen, verdict>>
T == Traces[tid]
None == [cls |-> "none"]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ cas = [o \in 1..3 |-> None]
        /\ last = [o \in 1..3 |-> [o |-> 0]]
        /\ files = [f \in 1..2 |-> None]
        /\ seen = {}
        /\ verdict = {}

Near(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
NearGrid(a, b, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
\* the same automaton as far as anyone can tell
SameObs(a, b) == /\ Near(a.params, b.params, 2) /\ a.dt = b.dt /\ a.r = b.r /\ a.pad = b.pad
                 /\ NearGrid(a.frame, b.frame, 2)

Target(e) == e.o
After(e) ==      \* abstract configuration of the target after the event
  CASE e.k \in {"build", "twin"} -> IF e.k = "twin" THEN WithParams(e.c, e.v) ELSE e.c
    [] e.k = "params" -> IF cas[e.o].cls = "opaque"
                         THEN [cas[e.o] EXCEPT !.v = e.v, !.n = IF T.prop = "C06" THEN 0 ELSE cas[e.o].n] ELSE WithParams(cas[e.o], e.v)
    [] e.k = "radius" /\ cas[e.o].cls = "opaque" -> IF T.prop = "C06" THEN [cas[e.o] EXCEPT !.r = e.v] ELSE [cas[e.o] EXCEPT !.n = l]
    [] e.k = "kernel" /\ cas[e.o].cls = "opaque" -> [cas[e.o] EXCEPT !.n = l, !.v = <<>>]
    [] e.k = "dt" -> [cas[e.o] EXCEPT !.dt = e.v]
    [] e.k = "radius" -> [cas[e.o] EXCEPT !.r = e.v]
    [] e.k = "kernel" -> [cas[e.o] EXCEPT !.ker = e.ker, !.r = e.r]
    [] e.k = "load" -> [e.c EXCEPT !.pad = cas[e.o].pad]
    [] e.k = "restore" -> files[e.f].c
    \* a random rule (number n), until it is given a vector; C06 follows its settings
    \* (and the random numbers, which choose between families of functions)
    [] e.k = "default" -> IF T.prop = "C06"
                          THEN [cls |-> "opaque", n |-> l, v |-> <<>>, r |-> e.r, dt |-> 0, pad |-> e.pad,
                                d |-> <<e.cls, e.peaks, e.act, e.ext, e.int, e.thr, e.seed>>]
                          ELSE [cls |-> "opaque", n |-> l, v |-> <<>>]
    [] OTHER -> cas[e.o]

Has(e, o) == \E i \in 1..Len(e.obs) : e.obs[i].o = o
ObsOf(e, o) == LET i == CHOOSE i \in 1..Len(e.obs) : e.obs[i].o = o IN e.obs[i]

\* clauses every history must satisfy
Common(e) ==
  LET o == Target(e) IN
  Fail("caller-config-modified", e.dicts) \cup
  Fail("automata-listed", \A p \in 1..3 : Has(e, p) <=> (p = o \/ last[p].o # 0)) \cup
  Fail("other-automaton-changed",
       \A p \in 1..3 : (p # o /\ last[p].o # 0 /\ Has(e, p)) => (SameObs(ObsOf(e, p), last[p]) /\ ObsOf(e, p).t = last[p].t))

\* C04: vectors
C04Fails(e, c, b) ==
  LET o == Target(e) IN
  Fail("params-read-back", IF c.cls = "opaque" THEN c.v = <<>> \/ Near(b.params, c.v, 1) ELSE Near(b.params, Params(c), 1)) \cup
  (IF e.k = "roundtrip" THEN Fail("roundtrip-changed-behaviour", SameObs(b, last[o])) ELSE {}) \cup
  Fail("same-vector-same-behaviour", \A s \in seen : s.c = c => NearGrid(s.frame, b.frame, 2)) \cup
  (IF c.cls # "opaque" /\ Predictable(c) THEN Fail("vector-layout-behaviour", b.frame = StepOf(c, T.probe)) ELSE {})

\* C05: save and restore
C05Fails(e, b) ==
  LET o == Target(e) IN
  (IF e.k = "save" THEN Fail("save-changed-automaton", SameObs(b, last[o]) /\ b.t = last[o].t) ELSE {}) \cup
  (IF e.k = "restore" /\ files[e.f].cls = "written" THEN     \* what the file's author asked for
     LET c == files[e.f].c IN
     Fail("written-parameters", Near(b.params, Params(c), 2)) \cup
     Fail("written-dt", c.dt = 0 \/ b.dt = 16384 * c.dt) \cup
     Fail("written-radius", b.r = c.r) \cup
     (IF c.dt # 0 /\ Predictable(c) THEN Fail("written-behaviour", b.frame = StepOf(c, T.probe)) ELSE {})
   ELSE IF e.k = "restore" THEN
     Fail("restored-parameters", Near(b.params, files[e.f].obs.params, 2)) \cup
     Fail("restored-dt", b.dt = files[e.f].obs.dt) \cup
     Fail("restored-radius", b.r = files[e.f].obs.r) \cup
     Fail("restored-padding", b.pad = files[e.f].obs.pad) \cup
     Fail("restored-channels", b.ch = files[e.f].obs.ch) \cup
     Fail("restored-behaviour", NearGrid(b.frame, files[e.f].obs.frame, 2)) \cup
     Fail("resaved-config", e.cfg = files[e.f].cfg)
   ELSE {})

\* C06: every setting takes effect, alone
C06Fails(e, c, b) ==
  LET o == Target(e) IN
  Fail("reported-dt", c.dt = 0 \/ b.dt = 16384 * c.dt) \cup     \* 0: left to the default
  Fail("reported-radius", b.r = c.r) \cup
  Fail("reported-params", IF c.cls = "opaque" THEN c.v = <<>> \/ Near(b.params, c.v, 1) ELSE Near(b.params, Params(c), 1)) \cup
  Fail("padding", b.pad = c.pad) \cup
  (IF e.k = "dt" THEN Fail("dt-changed-params", b.params = last[o].params /\ b.r = last[o].r) ELSE {}) \cup
  Fail("same-settings-same-behaviour", \A s \in seen : s.c = c => NearGrid(s.frame, b.frame, 2)) \cup
  Fail("default-dt", c.dt = 0 => \A s \in seen : (s.c.cls = c.cls /\ c.cls # "opaque" /\ s.c.dt = 0) => s.dt = b.dt) \cup
  (IF c.cls # "opaque" /\ c.dt # 0 /\ Predictable(c) THEN Fail("settings-behaviour", b.frame = StepOf(c, T.probe)) ELSE {}) \cup
  (IF e.k = "step" THEN Fail("step-is-frame", NearGrid(e.out, last[o].frame, 2)) ELSE {})

Fails(e, c, b) ==
  Common(e) \cup
  (CASE T.prop = "C04" -> C04Fails(e, c, b)
     [] T.prop = "C05" -> C05Fails(e, b)
     [] T.prop = "C06" -> C06Fails(e, c, b))

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     IF ~e.ok
     THEN /\ verdict' = {"raised: " \o e.exc}
          /\ Report(T.id, l, e.k, verdict')
          /\ UNCHANGED <<tid, l, cas, last, files, seen>>
     ELSE IF e.k = "write"
     THEN /\ files' = [files EXCEPT ![e.f] = [cls |-> "written", c |-> e.c]]
          /\ l' = l + 1 /\ UNCHANGED <<tid, cas, last, seen, verdict>>
     ELSE LET c == TLCEval(After(e))
              b == ObsOf(e, e.o)
              f == TLCEval(Fails(e, c, b))
          IN /\ verdict' = f
             /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
             /\ IF f # {} THEN UNCHANGED <<tid, l, cas, last, files, seen>>
                ELSE /\ l' = l + 1
                     /\ cas' = [cas EXCEPT ![e.o] = c]
                     /\ last' = [p \in 1..3 |-> IF Has(e, p) THEN ObsOf(e, p) ELSE [o |-> 0]]
                     /\ files' = IF e.k = "save" THEN [files EXCEPT ![e.f] = [cls |-> "file", c |-> c, obs |-> b, cfg |-> e.cfg]] ELSE files
                     /\ seen' = IF c.cls = "opaque" /\ ((c.v = <<>> /\ T.prop = "C04") \/ T.prop = "C05") THEN seen ELSE seen \cup {[c |-> c, frame |-> b.frame, dt |-> b.dt]}
                     /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
