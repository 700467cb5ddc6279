------------------------------ MODULE YucaLife ------------------------------
(* Outer-totalistic binary automata on a torus: births B, survivals S.       *)
EXTENDS YucaGrid

Moore == <<<<-1,-1,1>>, <<-1,0,1>>, <<-1,1,1>>, <<0,-1,1>>, <<0,1,1>>, <<1,-1,1>>, <<1,0,1>>, <<1,1,1>>>>

Live(g, y, x) == Correlate(g, Moore, "circular", y, x)

LifeNext(g, B, S) ==
  [y \in 1..Height(g) |-> [x \in 1..Width(g) |->
     LET n == Live(g, y, x) IN
     IF g[y][x] = 1 THEN (IF n \in S THEN 1 ELSE 0) ELSE (IF n \in B THEN 1 ELSE 0)]]
=============================================================================
