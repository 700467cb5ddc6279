------------------------------ MODULE GliderMC -------------------------------
(* The Life glider in each of its placements and orientations on an N x N     *)
(* torus: every fourth generation is the pattern moved one cell diagonally,   *)
(* and the mass is five throughout.  Ground for the velocities of YucaNamed.  *)
EXTENDS YucaLife, TLC
CONSTANT N
VARIABLES g, start, n, turns, flip
vars == <<g, start, n, turns, flip>>

Cells == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 3>>}
Blank == [y \in 1..N |-> [x \in 1..N |-> IF <<y, x>> \in Cells THEN 1 ELSE 0]]
Mirrored(h) == [y \in 1..N |-> [x \in 1..N |-> h[y][N + 1 - x]]]
Turned(h) == [y \in 1..N |-> [x \in 1..N |-> h[x][N + 1 - y]]]
RECURSIVE TurnedBy(_, _)
TurnedBy(h, k) == IF k = 0 THEN h ELSE TurnedBy(Turned(h), k - 1)

Turn(v) == <<-v[2], v[1]>>
RECURSIVE Turns(_, _)
Turns(v, k) == IF k = 0 THEN v ELSE Turns(Turn(v), k - 1)

Init == /\ turns \in 0..3 /\ flip \in 0..1 /\ n = 0
        /\ \E dy \in 0..(N - 1) : \E dx \in 0..(N - 1) :
             g = Shift(TurnedBy(IF flip = 1 THEN Mirrored(Blank) ELSE Blank, turns), dy, dx)
        /\ start = g
Next == /\ n < 4 * N
        /\ g' = TLCEval(LifeNext(g, {3}, {2, 3}))
        /\ n' = n + 1
        /\ UNCHANGED <<start, turns, flip>>
Spec == Init /\ [][Next]_vars

Mass == SumSeq0([y \in 1..N |-> SumSeq0(g[y])])
FiveCells == Mass = 5
Glides == n % 4 = 0 =>
  LET v == Turns(IF flip = 1 THEN <<-1, 1>> ELSE <<-1, -1>>, turns)
  IN g = Shift(start, v[1] * (n \div 4), v[2] * (n \div 4))
Returns == n = 4 * N => g = start
\* Life commutes with the square's symmetries
Isotropic == LET b == {3} s == {2, 3} IN
  /\ LifeNext(Turned(g), b, s) = Turned(LifeNext(g, b, s))
  /\ LifeNext(Mirrored(g), b, s) = Mirrored(LifeNext(g, b, s))
=============================================================================
