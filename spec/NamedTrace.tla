------------------------------ MODULE NamedTrace -----------------------------
(* The named configurations as recorded from the real automata: their kernels *)
(* (impulse responses), their steps, and the patterns that live under them.   *)
(* State: where the pattern was last seen.                                    *)
EXTENDS YucaNamed

VARIABLES tid, l, pos, verdict
vars == <<tid, l, pos, verdict>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ pos = <<>> /\ verdict = {}
R == Rules[T.rule]
G == Gliders[T.rule]

\* a step: grid, neighbourhoods and result over F
StepFails(e) ==
  LET S == IF R.disc THEN Disc(T.r) ELSE {<<0, 0>>} IN
  Fail("cells", \A y \in 1..Len(e.g) : \A x \in 1..Len(e.g[1]) :
     FAbs(NamedCell(R, e.g[y][x], Mean(S, e.g, y, x), e.nb[y][x]) - e.out[y][x]) <= e.tol)

SetFails(e) ==
  Fail("radius", e.r = T.r) \cup Fail("time-step", FAbs(e.dt - R.dt) <= 1) \cup
  Fail("one-channel", e.ch = <<1, 1>>) \cup Fail("fresh-config", e.fresh)

\* e.p: centre of mass over 256 on a torus of e.n cells, e.m: mass over 16
SeenFails(e) ==
  LET v == Orient(G.v, T.turns, T.flip) IN
  Fail("mass", FAbs(e.m - G.m) <= G.dm) \cup
  (IF pos = <<>> THEN {}
   ELSE Fail("velocity", \A i \in 1..2 : FAbs(Gap(pos[i], e.p[i], 256 * e.n) - v[i]) <= G.dv))

Fails(e) ==
  CASE e.k = "set" -> SetFails(e)
    [] e.k = "kernel" -> KernelFails(TLCEval([e EXCEPT !.f = R.ker]))
    [] e.k = "step" -> StepFails(e)
    [] e.k = "seen" -> SeenFails(e)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, pos>>
           ELSE /\ l' = l + 1
                /\ pos' = IF e.k = "seen" THEN e.p ELSE pos
                /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
