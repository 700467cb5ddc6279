----------------------------- MODULE YucaRender -----------------------------
(* Rendering: which states become frames, and their colours.  A state is a    *)
(* sequence of channels, each a matrix of values in 0..S.                     *)
EXTENDS Integers, Sequences, FiniteSets

Alive(st, eps) == \E c \in DOMAIN st, i \in DOMAIN st[1], j \in DOMAIN st[1][1] : st[c][i][j] > eps
Chosen(states, speed, k) == states[(k - 1) * speed + 1]
\* n steps: frames until the first state that has vanished
RECURSIVE Frames(_, _, _, _, _)
Frames(states, speed, n, k, eps) ==
  IF k > n \/ ~Alive(Chosen(states, speed, k), eps) THEN <<>>
  ELSE <<Chosen(states, speed, k)>> \o Frames(states, speed, n, k + 1, eps)

Min(a, b) == IF a < b THEN a ELSE b
Byte(v, S) == (255 * v) \div S
Shade(v, S, table) == table[Min(255, (256 * v) \div S) + 1]
Inv(px, invert) == IF ~invert THEN px ELSE [i \in DOMAIN px |-> IF i <= 3 THEN 255 - px[i] ELSE px[i]]
\* the documented mapping: colour map for one channel; blue and green for two;
\* red, green, blue for three; and alpha for four or more
Pixel(st, i, j, S, table) ==
  CASE Len(st) = 1 -> Shade(st[1][i][j], S, table)
    [] Len(st) = 2 -> <<0, Byte(st[1][i][j], S), Byte(st[2][i][j], S)>>
    [] Len(st) = 3 -> [c \in 1..3 |-> Byte(st[c][i][j], S)]
    [] OTHER -> [c \in 1..4 |-> Byte(st[c][i][j], S)]
Near(px, py, tol) == \A c \in 1..Min(Len(px), Len(py)) : px[c] - py[c] <= tol /\ py[c] - px[c] <= tol
\* values known to within slack/S
PixelOk(px, st, i, j, S, table, invert, slack, tol) ==
  \E d \in {-slack, 0, slack} :
    LET st2 == [c \in DOMAIN st |-> [a \in DOMAIN st[c] |-> [b \in DOMAIN st[c][a] |->
                 IF a = i /\ b = j THEN (IF st[c][a][b] + d < 0 THEN 0 ELSE Min(S, st[c][a][b] + d)) ELSE st[c][a][b]]]]
    IN Near(px, Inv(Pixel(IF d = 0 THEN st ELSE st2, i, j, S, table), invert), tol)
FrameOk(img, st, S, table, invert, slack, tol) ==
  /\ Len(img) = Len(st[1])
  /\ \A i \in DOMAIN img : /\ Len(img[i]) = Len(st[1][i])
                           /\ \A j \in DOMAIN img[i] : PixelOk(img[i][j], st, i, j, S, table, invert, slack, tol)
=============================================================================
