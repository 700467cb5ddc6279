----------------------------- MODULE NeuralTrace -----------------------------
(* The neural automaton in evaluation mode.  State: the parameter vector in   *)
(* force (over 16), the neighbourhood kernel, dt (over 64).  The mapping is   *)
(* x + dt*tanh(W3 act(W2 act(W1 [id; n]))) clamped, in YucaFixed arithmetic.  *)
(* Trace header: E, I, Hd (hidden width), act, pad, thr (over 16, alive),     *)
(* idk / SI the identity taps, NK the number of kernel parameters.            *)
EXTENDS YucaRule, YucaFixed, TraceBase

VARIABLES tid, l, p, kern, dt, clock, verdict
vars == <<tid, l, p, kern, dt, clock, verdict>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ p = <<>>
        /\ kern = Traces[tid].kern       \* [nbk, SK]
        /\ dt = Traces[tid].dt
        /\ clock = 0
        /\ verdict = {}

\* layout of the vector: W1, (mu, sigma), W2, (mu, sigma), W3, kernel parameters
NA == IF T.act = "Gaussian" THEN 2 ELSE 0
L1 == T.Hd * 2 * T.I
L2 == T.Hd * T.Hd
L3 == T.E * T.Hd
O2 == L1 + NA
O3 == O2 + L2 + NA
Total == O3 + L3 + T.NK
W1(i, j) == p[(i - 1) * 2 * T.I + j]
W2(i, j) == p[O2 + (i - 1) * T.Hd + j]
W3(i, j) == p[O3 + (i - 1) * T.Hd + j]

\* activation of layer n at x (over F)
Act(n, x) ==
  CASE T.act = "Gaussian" -> LET o == IF n = 1 THEN L1 ELSE O2 + L2
                             IN Bump(x, p[o + 1] * (F \div 16), p[o + 2] * (F \div 16))
    [] T.act = "Tanh" -> Tanh(x)
    [] T.act = "ReLU" -> Relu(x)
    [] T.act = "SiLU" -> Silu(x)
    [] T.act = "ELU" -> Elu(x)
    [] T.act = "Sigmoid" -> Sigmoid(x)
    [] OTHER -> x

Dot(n, w(_), v) == RDiv(FoldLeft(LAMBDA a, j : a + w(j) * v[j], 0, [j \in 1..n |-> j]), 16)

\* the rule record YucaRule's convolutions need
R == [E |-> T.E, I |-> T.I, pad |-> T.pad, idk |-> T.idk, nbk |-> kern.nbk, thr |-> T.thr]

\* the update of all external channels at a cell; u already masked, cells over 16
Cell4(u, y, x) ==
  LET in == TLCEval([j \in 1..(2 * T.I) |->
                IF j <= T.I THEN (Id(R, u, j, y, x) * F) \div (16 * T.SI)
                ELSE (Nbhd(R, u, j - T.I, y, x) * F) \div (16 * kern.SK)])
      h1 == TLCEval([i \in 1..T.Hd |-> Act(1, Dot(2 * T.I, LAMBDA j : W1(i, j), in))])
      h2 == TLCEval([i \in 1..T.Hd |-> Act(2, Dot(T.Hd, LAMBDA j : W2(i, j), h1))])
  IN [c \in 1..T.E |-> Tanh(Dot(T.Hd, LAMBDA j : W3(c, j), h2))]

StepOK(e) ==
  LET u == TLCEval(Masked(R, e.g)) IN
  \A y \in 1..Height(u[1]) : \A x \in 1..Width(u[1]) :
    LET up == TLCEval(Cell4(u, y, x)) IN
    \A c \in 1..T.E :
      FAbs(FClamp(u[c][y][x] * (F \div 16) + RDiv(dt * up[c], 64), 0, F) - e.out[c][y][x]) <= e.tol

Fails(e) ==
  CASE e.k \in {"step", "frame"} ->
         Fail("cells", StepOK(e)) \cup Fail("input-mutated", e.pure) \cup
         Fail("clock", e.t = clock + (IF e.k = "step" THEN dt ELSE 0))
    [] e.k = "weights" -> Fail("length", Len(e.v) = Total) \cup Fail("vector", e.got = e.v)
    [] e.k \in {"read", "freeze", "unfreeze", "save", "eval"} -> Fail("vector", e.v = p)
    [] e.k = "restore" -> Fail("vector", e.v = p) \cup Fail("dt", e.dt = dt)
    [] e.k = "kernel" -> {}
    [] e.k = "dt" -> Fail("dt", e.got = e.v)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, p, kern, dt, clock>>
           ELSE /\ l' = l + 1
                /\ p' = IF e.k = "weights" THEN e.v ELSE p
                /\ kern' = IF e.k = "kernel" THEN e.kern ELSE kern
                /\ dt' = IF e.k = "dt" THEN e.v ELSE dt
                /\ clock' = IF e.k = "step" THEN clock + dt ELSE IF e.k = "restore" THEN 0 ELSE clock
                /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
