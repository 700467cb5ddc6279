------------------------------- MODULE ImagesMC ------------------------------
(* The generators as streams (seeding determines every later draw), and laws   *)
(* of the disc: bigger radii bite more, a centred disc is symmetric on odd      *)
(* images, moving the centre by one step of the lattice moves the disc.         *)
EXTENDS YucaImages
CONSTANTS Seeds, Depth
VARIABLES seed, drawn, log
vars == <<seed, drawn, log>>
Init == seed = 0 /\ drawn = 0 /\ log = <<>>
Reseed == \E s \in Seeds : seed' = s /\ drawn' = 0 /\ log' = log
Draw == /\ Len(log) < Depth
        /\ log' = Append(log, [after |-> seed, nth |-> drawn, value |-> <<seed, drawn>>])
        /\ drawn' = drawn + 1 /\ UNCHANGED seed
Next == Reseed \/ Draw
Spec == Init /\ [][Next]_vars
FunctionOfSeed == \A a, b \in 1..Len(log) : (log[a].after = log[b].after /\ log[a].nth = log[b].nth) => log[a].value = log[b].value
D == 2..9
ASSUME \A h, w \in D : \A i \in 1..h, j \in 1..w : \A r \in {100, 400, 900} :
         Inside(Dist2(i, j, h, w, 0, 0), Reach(r, h)) => Inside(Dist2(i, j, h, w, 0, 0), Reach(r + 60, h))
ASSUME \A d \in {3, 5, 7, 9} : \A i, j \in 1..d :
         LET x == Dist2(i, j, d, d, 0, 0) IN x = Dist2(d + 1 - i, j, d, d, 0, 0) /\ x = Dist2(j, i, d, d, 0, 0)
ASSUME \A d \in {3, 5, 7, 9} : \A i, j \in 1..(d - 1) : Dist2(i + 1, j, d, d, 64, 128) = Dist2(i, j, d, d, 64, 64)
ASSUME \A h \in 2..200 : Coord(1, h) = -64 * (h \div 2) /\ \A k \in 2..h : Coord(k, h) > Coord(k - 1, h)
ASSUME \A h \in 2..60 : ~(\E i, j \in 1..h : Inside(Dist2(i, j, h, h, 0, 0), Reach(500, h)) /\ Outside(Dist2(i, j, h, h, 0, 0), Reach(500, h)))
=============================================================================
