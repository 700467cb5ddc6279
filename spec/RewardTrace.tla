---------------------------- MODULE RewardTrace ----------------------------
(* Fitness wrappers: the recorded CA steps of one evaluation determine the    *)
(* reward.  State: what has happened in the evaluation so far -- the number   *)
(* of soups used, the age and fate of the current one, the predictor's last   *)
(* answer, and for gliders the running reward.                                *)
EXTENDS TraceBase

CONSTANTS BigBang, Soups      \* steps before a prediction; training soups

VARIABLES tid, l, soups, age, fate, pred, g, verdict
vars == <<tid, l, soups, age, fate, pred, g, verdict>>
T == Traces[tid]
M == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
SumOf(f) == SumN(f, Len(f))
Count(S, P(_)) == Cardinality({i \in S : P(i)})

NoFate == [alive |-> <<>>, dead |-> <<>>, moved |-> <<>>, means |-> <<>>, dmeans |-> <<>>, tops |-> <<>>, pid |-> 0, fps |-> {}, wts |-> 0, prev |-> <<>>, after |-> <<>>]
NoPred == [p |-> <<>>, n |-> 0, at |-> 0, steady |-> FALSE, fresh |-> FALSE]
\* glider: steps done, last mass, last position, reward so far, over?
NoGlide == [n |-> 0, mass |-> 0, com |-> 0, rew |-> 0, over |-> FALSE, doubt |-> FALSE, blur |-> FALSE, pid |-> 0, tol |-> 10]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ soups = 0
        /\ age = 0
        /\ fate = NoFate
        /\ pred = NoPred
        /\ g = NoGlide
        /\ verdict = {}

(* ----------------------------------------------------------------- soups *)
Quarter == T.dim \div 4
SoupOk(s) ==
  Fail("soup-shape", s.shape = <<T.batch, T.ch, T.dim, T.dim>>) \cup
  Fail("soup-random", s.distinct = T.batch /\ s.lowest >= 0 /\ s.highest <= 1000 /\ s.levels > 8 /\ s.fp \notin fate.fps) \cup
  (IF T.kind = "simple"
   THEN Fail("soup-middle", s.lo = <<Quarter, Quarter>> /\ s.hi = <<T.dim - Quarter - 1, T.dim - Quarter - 1>>)
   ELSE Fail("soup-everywhere", s.lowest <= 200 /\ s.highest >= 800))

AllDead(d) == \A i \in DOMAIN d : d[i]

(* a step after the soup is over or beyond the budget is one too many *)
Budget == IF T.kind = "simple" THEN T.steps ELSE BigBang + T.steps + 1
CallFails(e) ==
  (IF e.new THEN SoupOk(e.soup) ELSE {}) \cup
  Fail("steps", (IF e.new THEN 1 ELSE age + 1) <= Budget) \cup
  Fail("evaluated-params", e.new \/ e.pid = fate.pid)

(* simple halting *)
SimpleOver == age = T.steps \/ AllDead(fate.dead)
Alive == Count(DOMAIN fate.alive, LAMBDA i : fate.alive[i])
Tiny(i) == ~fate.alive[i] /\ ~fate.dead[i]        \* float dust: alive or not
SimpleResult(e) ==
  LET n == T.batch
      lo == Alive
      hi == Alive + Count(DOMAIN fate.alive, Tiny)
  IN Fail("soup", soups = 1 /\ SimpleOver) \cup
     Fail("evaluated-params", e.pid = fate.pid /\ e.after = e.pid /\ e.info = e.pid /\ e.steps = T.steps) \cup
     Fail("active", \E k \in lo..hi : Near(e.active, (k * M) \div n, 3)) \cup
     Fail("reward", Near(e.reward, -Abs(500100 - e.active), 3))

(* ---------------------------------------------------------- halting targets *)
(* 1000: yes, 0: no, -1: too close to tell *)
Tell(v, lo, hi) == IF v <= lo THEN 0 ELSE IF v >= hi THEN 1000 ELSE -1
\* after the last step the wrapper looks one step further to see what still changes:
\* prev is the state judged for vanishing, the last step is the change
Vanish(f, i) == IF f.prev = <<>> THEN -1 ELSE
                IF f.prev[i].top = 0 THEN 0 ELSE IF f.prev[i].top >= 12 THEN 1000 ELSE -1
Static(f, i) == IF f.moved[i] = 0 THEN 0 ELSE IF f.moved[i] >= 12 THEN 1000 ELSE -1
Cols == IF T.mode = 2 THEN 2 ELSE 1
Label(f, i, c) == IF T.mode = 0 \/ (T.mode = 2 /\ c = 1) THEN Vanish(f, i) ELSE Static(f, i)
\* the soup ran its course: all its steps, or everything had died before
Finished == \/ age = BigBang + T.steps + 1
            \/ age > BigBang /\ \A i \in DOMAIN fate.prev : fate.prev[i].top = 0
LossFails(e) ==
  Fail("soup-finished", Finished) \cup
  Fail("target", Len(e.target) = T.batch /\ \A i \in 1..T.batch : Len(e.target[i]) = Cols /\
                 \A c \in 1..Cols : Label(fate, i, c) \in {-1, e.target[i][c]}) \cup
  Fail("own-prediction", e.p = pred.p)

PredFails(e) ==
  Fail("after-big-bang", age = BigBang /\ e.own) \cup
  Fail("one-prediction", ~pred.fresh) \cup
  Fail("prediction-shape", e.shape = <<T.batch, Cols>>) \cup
  (IF soups <= Soups
   THEN Fail("training", soups = 1 \/ e.wts # fate.wts)
   ELSE Fail("trained", e.wts # fate.wts /\ e.steady))

Guess(p) == IF p < 499 THEN 0 ELSE IF p > 501 THEN 1000 ELSE -1
HaltingResult(e) ==
  LET cells == (1..T.batch) \X (1..Cols)
      lab(x) == Label(fate, x[1], x[2])
      gs(x) == Guess(pred.p[x[1]][x[2]])
      sure == {x \in cells : lab(x) # -1 /\ gs(x) # -1}
      hit == Cardinality({x \in sure : lab(x) = gs(x)})
      n == T.batch * Cols
      ones == Cardinality({x \in cells : lab(x) = 1000})
      maybe == Cardinality({x \in cells : lab(x) = -1})
  IN Fail("soup", soups = Soups + 1 /\ Finished /\ pred.fresh) \cup
     Fail("evaluated-params", e.pid = fate.pid /\ e.after = e.pid /\ e.info = e.pid /\ e.steps = T.steps) \cup
     Fail("accuracy", \E k \in hit..(hit + n - Cardinality(sure)) : Near(e.reward, -((k * M) \div n), 3)) \cup
     Fail("active", \E k \in ones..(ones + maybe) : Near(e.active, (k * M) \div n, 3)) \cup
     Fail("judged-as-trained", e.wts = fate.wts)

AccFails(e) ==
  LET n == Len(e.p) * Len(e.p[1])
      hit == Cardinality({x \in (1..Len(e.p)) \X (1..Len(e.p[1])) : Guess(e.p[x[1]][x[2]]) = e.y[x[1]][x[2]]})
  IN Fail("accuracy", Near(e.acc, (hit * M) \div n, 3))

(* ------------------------------------------------------------------ gliders *)
(* positions in 1/4096 kernel radii along the last axis, of the first pattern *)
U == 4096
RECURSIVE Moment(_, _)
Moment(c, n) == IF n = 0 THEN 0 ELSE c[n] * (n - 1) + Moment(c, n - 1)
\* 4096 * a / b without leaving 32 bits (a <= 2^30 / 64)
Ratio(a, b) == LET w == a \div b
                   m == a % b
               IN w * U + (((m * 64) \div b) * 64 + ((((m * 64) % b) * 64) \div b))
Com(e) == LET m == SumOf(e.cols)
          IN IF m = 0 THEN 0 ELSE Ratio(Moment(e.cols, Len(e.cols)), m * T.r)
Span == ((T.dim - 1) * U) \div T.r
Turn == (T.dim * U) \div T.r
Growth(m1, m0) == Abs(U - Ratio(m1, m0))
Close(a, b) == Near(a, b, 16)
Moved(c0, c1) == IF c0 > Span - 2 * U /\ c1 < 2 * U THEN c1 - c0 + Span
                 ELSE IF c1 > Span - 2 * U /\ c0 < 2 * U THEN c1 - c0 - Span ELSE c1 - c0
Wraps(c0, c1) == (c0 > Span - 2 * U /\ c1 < 2 * U) \/ (c1 > Span - 2 * U /\ c0 < 2 * U)
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
GlideStep(e) ==
  LET g0 == IF e.new THEN [NoGlide EXCEPT !.mass = e.mass0, !.pid = e.pid] ELSE g
      c1 == Com(e)
      near == Close(g0.com, Span - 2 * U) \/ Close(g0.com, 2 * U) \/ Close(c1, Span - 2 * U) \/ Close(c1, 2 * U)
  IN [n |-> g0.n + 1, mass |-> e.mass, com |-> c1,
      rew |-> g0.rew + (IF g0.n = 0 THEN 0 ELSE Moved(g0.com, c1)) - (IF g0.mass = 0 THEN 0 ELSE Growth(e.mass, g0.mass)),
      over |-> e.mass = 0 \/ MaxOf(e.moved) <= 10,
      doubt |-> g0.doubt \/ (g0.n > 0 /\ near) \/ g0.mass = 0,
      \* too little happens to say whether it is over
      blur |-> g0.blur \/ MaxOf(e.moved) \in 8..12 \/ (e.mass = 0 /\ MaxOf(e.tops) > 0),
      \* the reward's ratio is regularised by 1e-6 of mean mass
      tol |-> g0.tol + 6 + (IF g0.mass = 0 THEN 0 ELSE 2 + (Ratio(e.mass, g0.mass) * (1 + (T.batch * T.ch * T.dim * T.dim * 16) \div 62500)) \div g0.mass),
      pid |-> g0.pid]
GlideResult(e) ==
  Fail("stops-when-over", g.blur \/ g.over \/ g.n = T.steps) \cup
  Fail("reward", g.doubt \/ g.blur \/ Near(e.reward, g.rew, g.tol)) \cup
  Fail("active", Near(e.active, ((Ratio(g.mass, e.cells) \div 64) * 15625) \div 256, 300)) \cup
  Fail("callers-pattern", e.pure)

Fails(e) ==
  CASE e.k = "call" -> IF T.kind = "glider"
                       THEN Fail("stops-when-over", e.new \/ g.blur \/ (~g.over /\ g.n < T.steps))
                       ELSE CallFails(e)
    [] e.k = "pred" -> PredFails(e)
    [] e.k = "loss" -> LossFails(e)
    [] e.k = "result" -> (CASE T.kind = "simple" -> SimpleResult(e)
                            [] T.kind = "halting" -> HaltingResult(e)
                            [] T.kind = "glider" -> GlideResult(e))
    [] e.k = "accuracy" -> AccFails(e)
    [] e.k = "random" -> Fail("reward", e.reward >= 0 /\ e.reward <= M)
    [] OTHER -> {"unknown-event"}

States(e) == [i \in DOMAIN e.tops |-> [top |-> e.tops[i], mean |-> e.means[i]]]
Fate1(e) == [alive |-> e.alive, dead |-> e.dead, moved |-> e.moved, means |-> e.means, dmeans |-> e.dmeans, tops |-> e.tops,
             pid |-> e.pid, wts |-> fate.wts, after |-> States(e), prev |-> IF e.new THEN <<>> ELSE fate.after,
             fps |-> IF e.new THEN fate.fps \cup {e.soup.fp} ELSE fate.fps]

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, soups, age, fate, pred, g>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ CASE e.k = "call" /\ T.kind = "glider" -> /\ g' = GlideStep(e)
                                                             /\ UNCHANGED <<soups, age, fate, pred>>
                     [] e.k = "call" /\ T.kind # "glider" -> /\ soups' = IF e.new THEN soups + 1 ELSE soups
                                                             /\ age' = IF e.new THEN 1 ELSE age + 1
                                                             /\ fate' = Fate1(e)
                                                             /\ pred' = [pred EXCEPT !.fresh = pred.fresh /\ ~e.new]
                                                             /\ UNCHANGED g
                     [] e.k = "pred" -> /\ pred' = [p |-> e.p, n |-> pred.n + 1, at |-> age, steady |-> e.steady, fresh |-> TRUE]
                                        /\ fate' = [fate EXCEPT !.wts = e.wts]
                                        /\ UNCHANGED <<soups, age, g>>
                     [] e.k = "result" -> /\ soups' = 0 /\ age' = 0 /\ fate' = [NoFate EXCEPT !.fps = fate.fps] /\ pred' = NoPred /\ g' = NoGlide
                     [] OTHER -> UNCHANGED <<soups, age, fate, pred, g>>

Spec == Init /\ [][Next]_vars
=============================================================================
