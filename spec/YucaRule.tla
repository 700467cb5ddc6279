------------------------------ MODULE YucaRule ------------------------------
(* The continuous-CA update rule over exact integers.                        *)
(*                                                                           *)
(* rule record:                                                              *)
(*  E, I       external / internal channel counts                            *)
(*  pad        padding mode                                                  *)
(*  SX         scale of a cell value (cell v means v/SX)                     *)
(*  SI, SK     scales of the identity / neighbourhood kernel weights         *)
(*  SG         common scale of growth values (every function's own scale     *)
(*             divides it)                                                   *)
(*  dtn, dtd   the time step dtn/dtd                                         *)
(*  idk, nbk   [1..I] -> [input slot -> taps]; with G groups, output channel *)
(*             k reads the E\div G inputs of its group                       *)
(*  gen, per   [1..I] -> function records                                    *)
(*  thr        alive threshold numerator over SX (only used when E >= 4)     *)
(*  lenia      TRUE: growth ignores the identity channel                     *)
EXTENDS YucaGrid, TLC

Groups(r) == IF r.I % r.E = 0 THEN r.E ELSE 1

\* Input channel number feeding slot s of output channel k (both 1-based).
InChan(r, k, s) ==
  LET g    == Groups(r)
      outs == r.I \div g            \* outputs per group
      ins  == r.E \div g            \* inputs per group
  IN  ((k - 1) \div outs) * ins + s

Pow(b, n) == IF n = 0 THEN 1 ELSE FoldLeft(LAMBDA a, i : a * b, 1, [i \in 1..n |-> i])

Sum01(b) == IF b THEN 1 ELSE 0

(* Growth functions.  n is the neighbourhood value at scale r.SX * r.SK.     *)
(* Each returns an integer at scale SG; f.s is the function's own scale.     *)
RawGrowth(f, n) ==
  CASE f.k = "poly" ->
         \* sum c_i n^i ; c_i over f.sc, n over f.sn, value over f.s = sc*sn^d
         LET d == Len(f.c) - 1 IN
         FoldLeft(LAMBDA a, i : a + f.c[i] * Pow(n, i-1) * Pow(f.sn, d - (i-1)),
                  0, [i \in 1..(d+1) |-> i])
    [] f.k = "spike" -> Sum01(n = f.mu)
    [] f.k = "mix" ->  \* amplitudes over f.s
         Clamp(FoldLeft(LAMBDA a, t : a + (IF n = t[2] THEN t[1] ELSE 0), 0, f.t),
               0, f.s)
    [] f.k = "double" -> Clamp(Sum01(n = f.mu1) + Sum01(n = f.mu2), 0, 1)
    [] f.k = "dog" -> Sum01(n + f.dx = f.mu) - Sum01(n - f.dx = f.mu)
    [] f.k = "intervals" ->
         \* bounds over twice the neighbourhood scale, never hit by 2n
         FoldLeft(LAMBDA a, t : a + Sum01(t[1] < 2 * n /\ 2 * n < t[2]), 0, f.t)
    [] f.k = "relu" -> Max2(n, 0)
    [] f.k = "identity" -> n
    [] f.k = "tanh" -> (IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0)
    [] OTHER -> 0

\* Signed mode.  A mixture clamps after the doubling.
Signed(f, n) ==
  IF f.mode = 0 THEN RawGrowth(f, n)
  ELSE CASE f.k = "mix" ->
              Clamp(2 * FoldLeft(LAMBDA a, t : a + (IF n = t[2] THEN t[1] ELSE 0), 0, f.t)
                    - f.s, -f.s, f.s)
         [] f.k = "double" ->
              Clamp(2 * (Sum01(n = f.mu1) + Sum01(n = f.mu2)) - 1, -1, 1)
         [] OTHER -> 2 * RawGrowth(f, n) - f.s

Growth(r, f, n) == Signed(f, n) * (r.SG \div f.s)

(* Scale of a stepped cell.                                                  *)
OutScale(r) == r.SX * r.SI * r.SG * r.E * r.I * r.dtd

Masked(r, u) ==
  IF r.E >= 4
  THEN [c \in 1..r.E |-> [y \in 1..Height(u[c]) |-> [x \in 1..Width(u[c]) |->
          IF u[4][y][x] > r.thr THEN u[c][y][x] ELSE 0]]]
  ELSE u

Id(r, u, k, y, x) ==
  FoldLeft(LAMBDA a, s : a + Correlate(u[InChan(r, k, s)], r.idk[k][s], r.pad, y, x),
           0, [s \in 1..(r.E \div Groups(r)) |-> s])
Nbhd(r, u, k, y, x) ==
  FoldLeft(LAMBDA a, s : a + Correlate(u[InChan(r, k, s)], r.nbk[k][s], r.pad, y, x),
           0, [s \in 1..(r.E \div Groups(r)) |-> s])

\* un-averaged update of internal channel k at (y, x), scale SX*SI*SG
GenPer(r, u, k, y, x) ==
  LET i == Id(r, u, k, y, x)
      n == Nbhd(r, u, k, y, x)
      one == r.SX * r.SI
  IN  IF r.lenia THEN one * Growth(r, r.gen[k], n)
      ELSE (one - i) * Growth(r, r.gen[k], n) + i * Growth(r, r.per[k], n)

\* summed (not yet averaged) update; all external channels get the same one
Update(r, u, y, x) ==
  FoldLeft(LAMBDA a, k : a + GenPer(r, u, k, y, x), 0, [k \in 1..r.I |-> k])

\* One step: universe at scale SX -> universe at scale OutScale(r).
StepPlane(r, u) ==
  [y \in 1..Height(u[1]) |-> [x \in 1..Width(u[1]) |-> Update(r, u, y, x)]]

Step(r, u0) ==
  LET u  == TLCEval(Masked(r, u0))
      up == TLCEval(StepPlane(r, u))
      o  == OutScale(r)
      m  == o \div r.SX
  IN [c \in 1..r.E |-> [y \in 1..Height(u[c]) |-> [x \in 1..Width(u[c]) |->
        Clamp(u[c][y][x] * m + r.dtn * up[y][x], 0, o)]]]
=============================================================================
