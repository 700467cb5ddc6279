----------------------------- MODULE YucaImages ------------------------------
(* Masks over images.  Lengths are in 64ths of a cell; the row (column)        *)
(* coordinates of an image with d rows run from -(d \div 2) in d even steps,   *)
(* and radii are given in thousandths of half the image height.                *)
(* Cells whose distance is within Band of the radius are not judged.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Band == 2
RDivI(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
Coord(k, d) == LET r == d \div 2 IN RDivI(64 * (((k - 1) * (2 * r + 1)) - (r * d)), d)
Reach(rad, h) == (rad * (h \div 2) * 8) \div 125          \* rad/1000 * h\2 * 64
Sq(x) == x * x
\* squared distance of cell (i, j) of an h x w image to (cx, cy), cx along the columns
Dist2(i, j, h, w, cx, cy) == Sq(Coord(j, w) - cx) + Sq(Coord(i, h) - cy)
Inside(d2, reach) == reach > Band /\ d2 < Sq(reach - Band)
Outside(d2, reach) == d2 > Sq(reach + Band)

\* a bite is zeros inside and ones outside, an aperture the other way round
BiteOk(v, d2, reach) == v \in {0, 1} /\ (Inside(d2, reach) => v = 0) /\ (Outside(d2, reach) => v = 1)
ApertureOk(v, d2, reach) == BiteOk(1 - v, d2, reach)
Full(rad) == rad >= 975
=============================================================================
