------------------------------ MODULE RxnTrace ------------------------------
(* The two-species automaton as a forward-Euler Gray-Scott integrator.        *)
(* State: the constants in force (Du, Dv, f, k over 64; dx = 1/2^m; dt over   *)
(* 64), the stencil, the simulated clock.  Exact traces (T.mode = "exact")    *)
(* use dyadic settings and integer arithmetic, approximate ones YucaFixed.    *)
EXTENDS YucaFixed, TraceBase

VARIABLES tid, l, c, clock, verdict
vars == <<tid, l, c, clock, verdict>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ c = Traces[tid].c
        /\ clock = 0
        /\ verdict = {}

Wrap(i, n) == ((i - 1) % n) + 1
RECURSIVE SumOver(_, _, _, _, _)
\* correlation of grid g with stencil w (odd square) at (y, x), cells lo..hi
SumOver(w, g, y, x, i) ==
  LET n == Len(w) r == n \div 2 IN
  IF i > n * n THEN 0
  ELSE LET a == (i - 1) \div n b == (i - 1) % n
       IN (IF w[a + 1][b + 1] = 0 THEN 0
           ELSE w[a + 1][b + 1] * g[Wrap(y + a - r, Len(g))][Wrap(x + b - r, Len(g[1]))])
          + SumOver(w, g, y, x, i + 1)
Lap(w, g, y, x) == SumOver(w, g, y, x, 1)

RECURSIVE Pow4(_)
Pow4(m) == IF m = 0 THEN 1 ELSE 4 * Pow4(m - 1)

-----------------------------------------------------------------------------
(* exact: cells over 16, stencil over 4, result over 2^18 *)
ES == 262144
ExactStep(g) ==
  LET H == Len(g[1]) W == Len(g[1][1]) IN
  [s \in 1..2 |-> [y \in 1..H |-> [x \in 1..W |->
     LET u == g[1][y][x] v == g[2][y][x]
         uvv == u * v * v                                        \* over 4096
         lap == Lap(c.w, g[s], y, x)                             \* over 64
         dif == (IF s = 1 THEN c.du ELSE c.dv) * lap * Pow4(c.m) \* over 4096
         rea == IF s = 1 THEN -uvv + c.f * (16 - u) * 4 ELSE uvv - (c.f + c.k) * v * 4
     IN FClamp(g[s][y][x] * (ES \div 16) + c.dt * (dif + rea), 0, ES)]]]

(* approximate: everything over F; c.w over 4F, c.du = Du/dx^2 over F *)
ApproxCell(g, s, y, x) ==
  LET u == g[1][y][x] v == g[2][y][x]
      uvv == Mul(Mul(u, v), v)
      lap == RDiv(Lap(c.w, g[s], y, x), 4 * F)
      dif == Mul(IF s = 1 THEN c.du ELSE c.dv, lap)
      rea == IF s = 1 THEN -uvv + Mul(c.f, F - u) ELSE uvv - Mul(c.f + c.k, v)
  IN FClamp(g[s][y][x] + Mul(c.dt, dif + rea), 0, F)

NearGrids(g, out, tol) ==
  \A s \in 1..2 : \A y \in 1..Len(g[1]) : \A x \in 1..Len(g[1][1]) :
     FAbs(ApproxCell(g, s, y, x) - out[s][y][x]) <= tol

\* the settings the automaton reports; clause names say which one is wrong
Reported(e, d) ==
  Fail("diffusion-u", e.got.du = d.du) \cup Fail("diffusion-v", e.got.dv = d.dv) \cup
  Fail("feed", e.got.f = d.f) \cup Fail("decay", e.got.k = d.k) \cup
  Fail("dt", e.got.dt = d.dt) \cup Fail("dx", e.got.m = d.m)

Set(e) == CASE e.k = "set_du" -> [c EXCEPT !.du = e.v]
            [] e.k = "set_dv" -> [c EXCEPT !.dv = e.v]
            [] e.k = "set_dx" -> [c EXCEPT !.m = e.v]
            [] e.k = "set_dt" -> [c EXCEPT !.dt = e.v]
            [] e.k = "set_params" -> [c EXCEPT !.du = e.v[1], !.dv = e.v[2], !.f = e.v[3], !.k = e.v[4]]
            [] e.k = "set_kernel" -> [c EXCEPT !.w = e.w]
            [] e.k = "load" -> e.c
            [] OTHER -> c

\* reaction terms of a homogeneous state, over F
ResU(u, v) == Mul(c.f, F - u) - Mul(Mul(u, v), v)
ResV(u, v) == Mul(Mul(u, v), v) - Mul(c.f + c.k, v)

RECURSIVE SumW(_, _)
SumW(w, i) == LET n == Len(w) IN IF i > n * n THEN 0 ELSE w[((i - 1) \div n) + 1][((i - 1) % n) + 1] + SumW(w, i + 1)
RECURSIVE AbsW(_, _)
AbsW(w, i) == LET n == Len(w) IN IF i > n * n THEN 0 ELSE FAbs(w[((i - 1) \div n) + 1][((i - 1) % n) + 1]) + AbsW(w, i + 1)

StencilFails(e) ==    \* e.w: both species' stencils over 2^20
  Fail("one-stencil-each", Len(e.w) = 2 /\ e.shape[1] = 2 /\ e.shape[2] = 1) \cup
  Fail("same-stencil", e.w[1] = e.w[2]) \cup
  Fail("zero-sum", FAbs(SumW(e.w[1], 1)) <= 2 * e.n * e.n) \cup
  Fail("normalised", FAbs(AbsW(e.w[1], 1) - 1048576) <= 2 * e.n * e.n) \cup
  Fail("negative-centre", e.w[1][(e.n + 1) \div 2][(e.n + 1) \div 2] < 0) \cup
  Fail("isotropic", \A i \in 1..e.n : \A j \in 1..e.n : FAbs(e.w[1][i][j] - e.w[1][j][i]) <= 1 /\ FAbs(e.w[1][i][j] - e.w[1][e.n + 1 - i][j]) <= 1)

Fails(e) ==
  CASE e.k = "step" ->
         Fail("cells", e.out = ExactStep(e.g)) \cup Fail("input-mutated", e.pure) \cup
         Fail("clock", e.t = clock + c.dt)
    [] e.k = "astep" -> Fail("cells", NearGrids(e.g, e.out, e.tol)) \cup Fail("input-mutated", e.pure)
    [] e.k = "impulse" ->   \* only one species disturbed, no reaction: no cross-talk
         Fail("cross-talk", \A y \in 1..Len(e.d) : \A x \in 1..Len(e.d[1]) : e.d[y][x] = 0)
    [] e.k = "stencil" -> StencilFails(e)
    [] e.k = "grid" ->      \* the initial grid: cells over F, change after one step over 2^20
         Fail("grid-shape", e.shape = <<e.b, 2, e.h, e.wd>>) \cup
         Fail("homogeneous", e.spread = 0) \cup
         Fail("range", e.u \in 0..F /\ e.v \in 1..F) \cup
         Fail("lower-branch", e.u <= F \div 2 + 1) \cup
         Fail("u-at-rest", FAbs(ResU(e.u, e.v)) <= 6) \cup
         Fail("v-at-rest", FAbs(ResV(e.u, e.v)) <= 6) \cup
         Fail("stays-put", e.drift <= 16)
    [] e.k = "init" -> Reported(e, c)
    [] e.k \in {"set_du", "set_dv", "set_dx", "set_dt", "set_params", "set_kernel", "load"} -> Reported(e, Set(e))
    [] e.k = "reset" -> Fail("reset-clock", e.t = 0)
    [] e.k = "get_params" -> Fail("vector", e.v = <<c.du, c.dv, c.f, c.k>>)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, c, clock>>
           ELSE /\ l' = l + 1
                /\ c' = Set(e)
                /\ clock' = IF e.k = "step" THEN clock + c.dt ELSE IF e.k = "reset" THEN 0 ELSE clock
                /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
