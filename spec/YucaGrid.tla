------------------------------ MODULE YucaGrid ------------------------------
(* Integer arithmetic on grids.  A grid is <<row_1, .., row_H>>, a row is    *)
(* <<x_1, .., x_W>>; every cell is an integer numerator over a scale that    *)
(* the surrounding rule record fixes.  A kernel is a sequence of taps        *)
(* <<dy, dx, w>> with w an integer numerator over the kernel scale: sparse,  *)
(* and by construction a cross-correlation (what torch calls a convolution). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Height(g) == Len(g)
Width(g)  == Len(g[1])

Abs(i)       == IF i < 0 THEN -i ELSE i
Max2(a, b)   == IF a > b THEN a ELSE b
Min2(a, b)   == IF a < b THEN a ELSE b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* 1-based wrapped index
Wrap(i, n) == ((i - 1) % n) + 1

\* The value a padding mode supplies at (y, x), y and x possibly off-grid.
\* "reflect" mirrors about the edge cell without repeating it.
Mirror(i, n) == IF i < 1 THEN 2 - i ELSE IF i > n THEN 2 * n - i ELSE i
Cell(g, y, x, pad) ==
  LET h == Height(g)  w == Width(g) IN
  IF y \in 1..h /\ x \in 1..w THEN g[y][x]
  ELSE CASE pad = "circular" -> g[Wrap(y, h)][Wrap(x, w)]
         [] pad = "reflect"  -> g[Mirror(y, h)][Mirror(x, w)]
         [] pad = "replicate" -> g[Clamp(y, 1, h)][Clamp(x, 1, w)]
         [] OTHER            -> 0

Correlate(g, taps, pad, y, x) ==
  FoldLeft(LAMBDA acc, t : acc + t[3] * Cell(g, y + t[1], x + t[2], pad), 0, taps)

SumSeq0(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)

\* cyclic shift: result[y][x] = g[y-dy][x-dx]
Shift(g, dy, dx) ==
  [y \in 1..Height(g) |-> [x \in 1..Width(g) |->
      g[Wrap(y - dy, Height(g))][Wrap(x - dx, Width(g))]]]

\* grids agree to within tol units everywhere (same shape)
Near(g, h, tol) ==
  /\ Len(g) = Len(h)
  /\ \A y \in 1..Len(g) :
        /\ Len(g[y]) = Len(h[y])
        /\ \A x \in 1..Len(g[y]) : Abs(g[y][x] - h[y][x]) <= tol
=============================================================================
