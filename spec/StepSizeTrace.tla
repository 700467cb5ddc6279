---------------------------- MODULE StepSizeTrace ----------------------------
(* The automata that choose their own time step: adaptive ("code") and        *)
(* random ("random").  Everything over F.  State: the clock and the previous  *)
(* step.  The adaptive choice is recomputed from the rule; where a tried step *)
(* lies within the fixed-point error of the threshold both answers pass.      *)
EXTENDS YucaProfiles, TraceBase

VARIABLES tid, l, clock, prev, steps, verdict
vars == <<tid, l, clock, prev, steps, verdict>>
T == Traces[tid]
\* T.c: kind, E, taps (per channel, over SK), SK, gen, per, lo, hi (bounds over F*4), thr (over F), mask, alive
c == T.c
G == 4      \* step sizes are kept over G*F

Init == tid \in 1..Len(Traces) /\ l = 1 /\ clock = 0 /\ prev = Traces[tid].c.prev /\ steps = <<>> /\ verdict = {}

Wrap(i, n) == ((i - 1) % n) + 1
RECURSIVE Corr(_, _, _, _, _)
Corr(k, g, y, x, i) == IF i > Len(k) THEN 0
  ELSE k[i][3] * g[Wrap(y + k[i][1], Len(g))][Wrap(x + k[i][2], Len(g[1]))] + Corr(k, g, y, x, i + 1)

RECURSIVE MeanUp(_, _, _, _)
MeanUp(u, y, x, k) ==
  IF k > c.E THEN 0
  ELSE LET n == TLCEval(RDiv(Corr(c.taps[k], u[k], y, x, 1), c.SK))
           i == u[k][y][x]
       IN Mul(F - i, TLCEval(Value(c.gen[k], n))) + Mul(i, TLCEval(Value(c.per[k], n))) + MeanUp(u, y, x, k + 1)

Masked(u) == IF c.E < 4 THEN u
  ELSE [k \in 1..c.E |-> [y \in 1..Len(u[1]) |-> [x \in 1..Len(u[1][1]) |-> IF u[4][y][x] > c.alive THEN u[k][y][x] ELSE 0]]]
Upd(u) == [y \in 1..Len(u[1]) |-> [x \in 1..Len(u[1][1]) |-> RDiv(TLCEval(MeanUp(u, y, x, 1)), c.E * c.E)]]
\* s over G*F; up over F: s*up <= 2F*... kept in range by splitting
Scaled(s, up) == RDiv(TLCEval(Mul(s, up)), G)
Euler(u, up, s) == [k \in 1..c.E |-> [y \in 1..Len(u[1]) |-> [x \in 1..Len(u[1][1]) |->
                      FClamp(u[k][y][x] + Scaled(s, up[y][x]), 0, F)]]]

\* with v bound to the (fully evaluated) value x: Op(v)
With(x, Op(_)) == CHOOSE o \in {Op(v) : v \in {TLCEval(x)}} : TRUE

\* largest relative disagreement over F between one step and two half steps
SetMax(S) == CHOOSE m \in S : \A n \in S : n <= m
\* (bounds on it: every cell is known to within Err units)
Err == 5
RelLo(b, a) == IF a <= 2 * Err THEN 0 ELSE ((FAbs(b - a) - Err) * F) \div (a + Err)
RelHi(b, a) == IF a <= 2 * Err THEN (IF a + b = 0 THEN 0 ELSE 9 * F) ELSE ((FAbs(b - a) + Err) * F) \div (a - Err)
Rel(big, sm) ==
  LET C == (1..c.E) \X (1..Len(sm[1])) \X (1..Len(sm[1][1])) IN
  << SetMax({ RelLo(big[i[1]][i[2]][i[3]], sm[i[1]][i[2]][i[3]]) : i \in C }),
     SetMax({ RelHi(big[i[1]][i[2]][i[3]], sm[i[1]][i[2]][i[3]]) : i \in C }) >>
Disagreement(u, up, s) ==
  With(Euler(u, up, s), LAMBDA big :
  With(Euler(u, up, s \div 2), LAMBDA h0 :
  With(Masked(h0), LAMBDA h :
  With(Upd(h), LAMBDA hup :
  With(Euler(h, hup, s \div 2), LAMBDA sm : Rel(big, sm))))))

Slack == 4
\* the candidates, largest first
RECURSIVE Candidates(_)
Candidates(s) == IF s < c.lo THEN <<>> ELSE <<s>> \o Candidates((s * 3) \div 4)
\* the steps the rule allows: a candidate may be chosen if it may pass and none
\* before it surely passes; the minimum if none surely passes
Choices(u, up, s0) ==
  With(Candidates(s0), LAMBDA cand :
  With([i \in 1..Len(cand) |-> Disagreement(u, up, cand[i])], LAMBDA d :
    LET Open(n) == \A i \in 1..n : d[i][2] > c.thr - Slack IN
    {cand[i] : i \in {j \in 1..Len(cand) : d[j][1] < c.thr + Slack /\ Open(j - 1)}}
    \cup (IF Open(Len(cand)) THEN {c.lo} ELSE {})))

Min2(a, b) == IF a < b THEN a ELSE b
NearG(out, want, tol) == \A k \in 1..c.E : \A y \in 1..Len(want[1]) : \A x \in 1..Len(want[1][1]) :
  FAbs(out[k][y][x] - want[k][y][x]) <= tol

StepFails(e) ==
  With(Masked(e.g), LAMBDA u : With(Upd(u), LAMBDA up :
     Fail("step-size", IF c.kind = "random" THEN c.lo <= e.used /\ e.used <= c.hi
                       ELSE \E s \in Choices(u, up, Min2(2 * prev, c.hi)) : FAbs(s - e.used) <= 4) \cup
     Fail("grid", NearG(e.out, TLCEval(Euler(u, up, e.used)), 14)) \cup
     Fail("clock", FAbs(e.t - (clock + e.used)) <= 2) \cup
     Fail("previous", FAbs(e.prev - e.used) <= 1) \cup
     Fail("reported", FAbs(e.dt - e.used) <= 1) \cup
     Fail("input-mutated", e.pure)))

Fails(e) ==
  CASE e.k = "new" -> Fail("clock", e.t = 0)
    [] e.k = "step" -> StepFails(e)
    [] e.k = "reset" -> Fail("reset-clock", e.t = 0)
    [] e.k = "fresh" -> \* many draws: every call draws anew, over the whole range
         LET w == c.hi - c.lo IN
         Fail("one-step-for-all", \E i, j \in 1..Len(e.draws) : e.draws[i] # e.draws[j]) \cup
         Fail("range-not-used", (\E i \in 1..Len(e.draws) : e.draws[i] < c.lo + w \div 3) /\ (\E i \in 1..Len(e.draws) : e.draws[i] > c.hi - w \div 3)) \cup
         Fail("out-of-range", \A i \in 1..Len(e.draws) : c.lo <= e.draws[i] /\ e.draws[i] <= c.hi)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, clock, prev, steps>>
           ELSE /\ l' = l + 1
                /\ clock' = IF e.k = "step" THEN e.t ELSE IF e.k = "reset" THEN 0 ELSE clock
                /\ prev' = IF e.k = "step" THEN e.prev ELSE prev
                /\ UNCHANGED <<tid, steps>>
Spec == Init /\ [][Next]_vars
=============================================================================
