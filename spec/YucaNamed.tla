----------------------------- MODULE YucaNamed ------------------------------
(* The published constants of the named rules and of the mobile patterns that *)
(* are shipped with them.  Rule constants are YucaFixed numbers (F = 1.0),    *)
(* velocities are in 1/256 cells per window, masses in 1/16.                  *)
EXTENDS YucaKernels

Third == F \div 3
Ring(mu, sigma) == [k |-> "gauss", mode |-> 0, mu |-> mu, sigma |-> sigma]
Mix(t, mode) == [k |-> "mix", mode |-> mode, t |-> t]
Steps(t, an, ad) == [k |-> "steps", mode |-> 1, t |-> t, an |-> an, ad |-> ad]

Rules ==
  [orbium   |-> [ker |-> Ring(8192, 2458), gen |-> Mix(<<<<F, 2458, 246>>>>, 1), per |-> Mix(<<<<F, 2458, 246>>>>, 1),
                 disc |-> FALSE, dt |-> 1638],
   geminium |-> [ker |-> Mix(<<<<8192, 1537, 541>>, <<F, 4611, 541>>, <<10923, 7685, 541>>>>, 0),
                 gen |-> Mix(<<<<F, 4260, 590>>>>, 1), per |-> Mix(<<<<F, 4260, 590>>>>, 1),
                 disc |-> FALSE, dt |-> 1638],
   smooth   |-> [ker |-> [k |-> "ring", mode |-> 0, ri |-> Third, ra |-> 17203],
                 gen |-> Steps(<<<<4555, 5980>>>>, 28, 1000), per |-> Steps(<<<<4375, 7291>>>>, 147, 1000),
                 disc |-> TRUE, dt |-> F]]

\* velocity per window <<down, right>>, mass, allowed deviations
Gliders ==
  [life     |-> [v |-> <<-256, -256>>, m |-> 80, dv |-> 1, dm |-> 0],
   orbium   |-> [v |-> <<2867, 1114>>, m |-> 1168, dv |-> 130, dm |-> 40],
   geminium |-> [v |-> <<-1350, 1510>>, m |-> 10540, dv |-> 160, dm |-> 320],
   smooth   |-> [v |-> <<90, -5120>>, m |-> 3200, dv |-> 380, dm |-> 250]]

-----------------------------------------------------------------------------
(* the eight symmetries of the square, on velocities <<down, right>>          *)
Turn(v) == <<-v[2], v[1]>>          \* a quarter turn counter-clockwise
RECURSIVE Turns(_, _)
Turns(v, n) == IF n = 0 THEN v ELSE Turns(Turn(v), n - 1)
\* first mirrored left to right (if flip = 1), then n quarter turns
Orient(v, n, flip) == Turns(IF flip = 1 THEN <<v[1], -v[2]>> ELSE v, n)

\* displacement on a torus of circumference n, between -n/2 and n/2
Gap(a, b, n) == LET d == (b - a) % n IN IF 2 * d > n THEN d - n ELSE d

-----------------------------------------------------------------------------
(* one cell under a named rule, n the neighbourhood value, i the identity one *)
NamedCell(r, x, i, n) ==
  FClamp(x + Mul(r.dt, Mul(F - i, Value(r.gen, n)) + Mul(i, Value(r.per, n))), 0, F)

\* mean over the disc of a third of the radius (in cells: 9 d2 <= radius^2)
Disc(r) == {d \in ((-r..r) \X (-r..r)) : 9 * (d[1] * d[1] + d[2] * d[2]) <= r * r}
At2(g, y, x) == g[((y - 1) % Len(g)) + 1][((x - 1) % Len(g[1])) + 1]
RECURSIVE SumOver(_, _, _, _)
SumOver(S, g, y, x) == IF S = {} THEN 0
                      ELSE LET d == CHOOSE d \in S : TRUE IN At2(g, y + d[1], x + d[2]) + SumOver(S \ {d}, g, y, x)
Mean(S, g, y, x) == SumOver(S, g, y, x) \div Cardinality(S)
=============================================================================
