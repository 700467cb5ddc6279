----------------------------- MODULE PhanesTrace -----------------------------
(* Recorded universe analyses and entropies of the real analyser.              *)
EXTENDS YucaPhanes, TraceBase

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>
T == Traces[tid]
Idle == [on |-> FALSE, step |-> 0, last |-> <<>>, deaths |-> <<>>, escapes |-> <<>>, prev |-> "", grids |-> <<>>, corr |-> <<>>, over |-> FALSE, ent |-> <<>>]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Idle /\ verdict = {}
Tol == 24            \* units of 1/8192 bit

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* sums over all soups of a product of two batches
Dot(a, b) == SumSeq([s \in 1..Len(a) |-> SumSeq([i \in 1..Len(a[s]) |-> SumSeq([j \in 1..Len(a[s][i]) |-> a[s][i][j] * b[s][i][j]])])])
Total(a) == SumSeq([s \in 1..Len(a) |-> SumSeq([i \in 1..Len(a[s]) |-> SumSeq(a[s][i])])])
CorrOf(a, b) ==
  LET n == Len(a) * Len(a[1]) * Len(a[1][1])
      sa == Total(a) sb == Total(b) saa == Dot(a, a) sbb == Dot(b, b) sab == Dot(a, b)
  IN IF Flat(n * saa - sa * sa, n * sbb - sb * sb) THEN [flat |-> TRUE, r |-> 0]
     ELSE [flat |-> FALSE, r |-> TLCEval((Pearson(n, sa, sb, saa, sbb, sab) * (n - 1)) \div n)]

StartFails(e) ==
  Fail("start-shape", e.dims = <<T.batch, 1, T.dim, T.dim>>) \cup
  Fail("start-box", \A s \in 1..Len(e.grids) : \A i, j \in 1..T.dim : (i \notin Box(T.dim) \/ j \notin Box(T.dim)) => e.grids[s][i][j] = 0) \cup
  Fail("start-alive", \A s \in 1..Len(e.grids) : \E i, j \in Box(T.dim) : e.grids[s][i][j] # 0) \cup
  Fail("start-range", e.lowest >= 0 /\ e.highest <= 1000) \cup
  Fail("soups-differ", T.dim >= 8 => e.distinct = T.batch)

Soups(e) == [s \in 1..Len(e.grids) |-> Status(e.grids[s])]
TickFails(e) ==
  Fail("analysed", st.on) \cup
  Fail("chain", e.from = st.prev) \cup
  Fail("runs-on", ~st.over) \cup
  Fail("limit", st.step < T.limit)

MeanEntropy(gs, w, top) ==
  LET n == Len(gs) * Len(gs[1]) * Len(gs[1][1])
      hs == TLCEval([s \in 1..Len(gs) |-> [i \in 1..Len(gs[s]) |-> [j \in 1..Len(gs[s][i]) |-> WindowEntropy(gs[s], i, j, w, top)]]])
  IN Total(hs) \div n

Ticked(e) ==
  LET s == TLCEval(Soups(e))
      c == TLCEval(IF T.judge /\ st.step > 0 THEN CorrOf(st.grids, e.grids) ELSE [flat |-> TRUE, r |-> 0])
      h == TLCEval(IF T.judge THEN MeanEntropy(e.grids, T.window, 254) ELSE 0)
  IN [st EXCEPT !.step = st.step + 1, !.last = Vanish(st.last, s, st.step),
                !.deaths = Append(st.deaths, Deaths(s)), !.escapes = Append(st.escapes, Escapes(s)),
                !.prev = e.to, !.over = AllDead(s), !.grids = e.grids, !.corr = Append(st.corr, c), !.ent = Append(st.ent, h)]

DoneFails(e) ==
  Fail("finished", st.over \/ st.step = T.limit) \cup
  Fail("steps", e.steps = [k \in 1..st.step |-> k - 1]) \cup
  Fail("mortality", e.mortality = st.deaths) \cup
  Fail("fertility", e.fertility = st.escapes) \cup
  Fail("last-step", e.last = st.last) \cup
  Fail("lengths", Len(e.entropy) = st.step /\ Len(e.deviation) = st.step /\ Len(e.corr) = st.step) \cup
  (IF Len(e.corr) # st.step \/ Len(e.entropy) # st.step \/ ~T.judge THEN {}
   ELSE Fail("correlation " \o ToString(<<e.corr, st.corr>>), \A k \in 1..st.step : st.corr[k].flat \/ (e.corr[k] - st.corr[k].r) \in -4..4) \cup
        Fail("one-correlation", \A k \in 1..st.step : st.corr[k].flat \/ (e.clo[k] = e.corr[k] /\ e.chi[k] = e.corr[k] /\ e.cdev[k] = 0)) \cup
        Fail("mean-entropy", \A k \in 1..st.step : (e.entropy[k] - st.ent[k]) \in -Tol..Tol))

Fails(e) ==
  CASE e.k = "start" -> StartFails(e)
    [] e.k = "tick" -> TickFails(e)
    [] e.k = "done" -> DoneFails(e)
    [] e.k = "entropy" -> Fail("entropy", EntropyIs([i \in 1..Len(e.vals) |-> e.vals[i]], e.got, Tol)) \cup Fail("argument-unchanged", e.pure)
    [] e.k = "spatial" ->
         Fail("spatial-shape", e.shape) \cup Fail("argument-unchanged", e.pure) \cup
         (IF ~e.shape THEN {} ELSE
          UNION {Fail("spatial-entropy " \o ToString(<<s, i, j>>),
                      EntropyIs(TLCEval(Window(e.grids[s], i, j, e.w)), e.got[s][i][j], Tol)) :
                 s \in 1..Len(e.grids), i \in 1..Len(e.grids[1]), j \in 1..Len(e.grids[1][1])})
    [] e.k = "cond" ->
         Fail("conditional-entropy", \E top \in {254, 255} : (e.got - Conditional(e.grid, e.dir, top)) \in -Tol..Tol)
    [] e.k = "multicond" ->
         Fail("mean-conditional-entropy", \E top \in {254, 255} :
               (e.got - (Conditional(e.grid, "top", top) + Conditional(e.grid, "right", top) + Conditional(e.grid, "bottom", top) + Conditional(e.grid, "left", top)) \div 4) \in -Tol..Tol)
    [] e.k = "multi" ->
         Fail("each-analysed", {e.saved[k].name : k \in 1..Len(e.saved)} = {e.files[k] : k \in 1..Len(e.files)} /\ Len(e.saved) = Len(e.files)) \cup
         Fail("own-file", \A k \in 1..Len(e.saved) : e.saved[k].own) \cup
         Fail("options-kept", \A k \in 1..Len(e.saved) : e.saved[k].cppn = e.cppn /\ e.saved[k].limit = e.limit) \cup
         Fail("result-of-run", \A k \in 1..Len(e.saved) : e.saved[k].same) \cup
         Fail("own-rule", \A k \in 1..Len(e.saved) : e.saved[k].rule) \cup
         Fail("nothing-else", e.strays = <<>>)
    [] OTHER -> {"unknown-event"}

After(e) == CASE e.k = "start" -> [Idle EXCEPT !.on = TRUE, !.last = [s \in 1..T.batch |-> -1], !.prev = e.id, !.grids = e.grids]
              [] e.k = "tick" -> Ticked(e)
              [] OTHER -> st

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, st>> ELSE l' = l + 1 /\ st' = TLCEval(After(e)) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
