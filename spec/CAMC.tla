-------------------------------- MODULE CAMC --------------------------------
(* Design check of YucaRule on tiny universes: every grid of a closed rule,  *)
(* all layouts below.  The laws CALawsTrace checks on the code are theorems  *)
(* of the rule: bounded, translation-equivariant, dead stays dead under the  *)
(* alive mask, and the pad modes agree away from the border.                 *)
EXTENDS YucaRule
CONSTANTS H, W, SX
VARIABLES r, u
vars == <<r, u>>

Spike(m, mode) == [k |-> "spike", s |-> 1, mu |-> m, mode |-> mode]
Skew == << <<0,1,2>>, <<-1,0,1>>, <<1,-1,1>> >>
Base(pad) == [E |-> 1, I |-> 1, pad |-> pad, SX |-> SX, SI |-> 1, SK |-> 1, SG |-> 1, dtn |-> 1, dtd |-> 1,
   idk |-> << << <<<<0,0,1>>>> >> >>, nbk |-> << << Skew >> >>,
   gen |-> << Spike(2, 0) >>, per |-> << Spike(1, 1) >>, thr |-> 0, lenia |-> FALSE]
Rules == {Base("circular"), Base("zeros"), Base("reflect"),
          [Base("circular") EXCEPT !.gen = << [k |-> "intervals", s |-> 1, mode |-> 1, t |-> << <<1, 5>> >>] >>],
          [Base("circular") EXCEPT !.gen = << [k |-> "dog", s |-> 1, mode |-> 0, mu |-> 2, dx |-> 1] >>, !.lenia = TRUE]}

Init == r \in Rules /\ u \in [1..1 -> [1..H -> [1..W -> 0..SX]]]
Next == u' = Step(r, u) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars

Bounded == \A y \in 1..H : \A x \in 1..W : u[1][y][x] \in 0..SX
Equivariant == r.pad = "circular" =>
   /\ Step(r, <<Shift(u[1], 1, 0)>>) = <<Shift(Step(r, u)[1], 1, 0)>>
   /\ Step(r, <<Shift(u[1], 0, 1)>>) = <<Shift(Step(r, u)[1], 0, 1)>>
\* a channel of its own: a 4-channel copy whose alpha is the complement of "dead"
Alive4 == [r EXCEPT !.E = 4, !.I = 4, !.thr = 0,
             !.idk = [k \in 1..4 |-> r.idk[1]], !.nbk = [k \in 1..4 |-> r.nbk[1]],
             !.gen = [k \in 1..4 |-> Spike(99, 0)], !.per = [k \in 1..4 |-> Spike(99, 0)]]
DeadStaysDead ==
   LET v == <<u[1], u[1], u[1], u[1]>>
       s == Step(Alive4, v)
   IN \A y \in 1..H : \A x \in 1..W : (u[1][y][x] = 0) => s[1][y][x] = 0
=============================================================================
