----------------------------- MODULE YucaPhanes ------------------------------
(* Universe analysis: soups of a universe step together; at every step the     *)
(* dead and the escaped ones are counted.  Soups are "dead", "inside" or       *)
(* "border" (something on the outermost rows or columns).                      *)
(* Second part: Shannon entropy in fixed point (bits over 2^13).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- counting ---- *)
Deaths(soups) == Cardinality({s \in DOMAIN soups : soups[s] = "dead"})
Escapes(soups) == Cardinality({s \in DOMAIN soups : soups[s] = "border"})
AllDead(soups) == Deaths(soups) = Len(soups)
\* last is the step at which each soup had first vanished, -1 while it has not
Vanish(last, soups, step) == [s \in DOMAIN last |-> IF last[s] = -1 /\ soups[s] = "dead" THEN step ELSE last[s]]
Over(step, limit, soups) == AllDead(soups) \/ step + 1 = limit

\* the status of a soup's grid (one channel, rows of non-negative integers)
Status(g) ==
  LET n == Len(g) IN
  IF \A i \in 1..n : \A j \in 1..Len(g[i]) : g[i][j] = 0 THEN "dead"
  ELSE IF \E i \in 1..n : \E j \in 1..Len(g[i]) : (i \in {1, n} \/ j \in {1, Len(g[i])}) /\ g[i][j] # 0 THEN "border"
  ELSE "inside"
\* soups are thrown into the middle half of the grid
Box(d) == LET b == d \div 2 IN ((b \div 2) + 1)..(d - ((b + 1) \div 2))

(* ---- entropy ---- *)
U == 8192
RECURSIVE Frac(_, _, _)
\* binary digits of log2(x / 2^14), 2^14 <= x < 2^15
Frac(x, bit, acc) ==
  IF bit = 0 THEN acc
  ELSE LET y == TLCEval((x * x + 8192) \div 16384)
       IN IF y >= 32768 THEN Frac(TLCEval((y + 1) \div 2), bit \div 2, TLCEval(acc + bit)) ELSE Frac(y, bit \div 2, acc)
RECURSIVE Log2From(_, _)
Log2From(n, k) == IF n < 2 ^ (k + 1) THEN k * U + Frac((n * 16384) \div (2 ^ k), U \div 2, 0) ELSE Log2From(n, k + 1)
Log2(n) == Log2From(n, 0)     \* n in 1..131071

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Partition(f) == LET v == TLCEval({f[p] : p \in DOMAIN f}) IN [x \in v |-> Cardinality({p \in DOMAIN f : f[p] = x})]
\* entropy of a partition given by its class sizes
Shannon(count) ==
  LET n == TLCEval(SumOver(count, DOMAIN count))
      t == TLCEval([b \in DOMAIN count |-> count[b] * Log2(count[b])])
  IN Log2(n) - (SumOver(t, DOMAIN t) \div n)

\* the values of a set of places; g maps places to integers
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* level of a value among 256 after stretching to the whole range; top is the level of the largest
Level(v, mn, mx, top) == IF mx = mn THEN 0 ELSE IF v = mx THEN top ELSE (255 * (v - mn)) \div (mx - mn)
\* values whose level depends on rounding
Blurred(vals) == LET mn == Min(vals) mx == Max(vals) IN \E v \in vals \ {mn, mx} : (255 * (v - mn)) % (mx - mn) = 0
Counts(g, top) ==      \* g a sequence of values
  LET vals == TLCEval({g[p] : p \in DOMAIN g})
      mn == TLCEval(Min(vals))  mx == TLCEval(Max(vals))
      lev == TLCEval([p \in DOMAIN g |-> Level(g[p], mn, mx, top)])
  IN Partition(lev)
EntropyIs(g, got, tol) ==
  \/ Blurred(TLCEval({g[p] : p \in DOMAIN g}))
  \/ \E top \in {254, 255} : LET h == TLCEval(Shannon(TLCEval(Counts(g, top)))) IN got >= h - tol /\ got <= h + tol

Wrap(i, n) == ((i - 1) % n) + 1
Window(g, i, j, w) ==
  LET h == (w - 1) \div 2  n == Len(g)  m == Len(g[1])
  IN [k \in 1..(w * w) |-> g[Wrap(i - h + ((k - 1) \div w), n)][Wrap(j - h + ((k - 1) % w), m)]]
Places(g) == LET m == Len(g[1]) IN [k \in 1..(Len(g) * m) |-> g[((k - 1) \div m) + 1][((k - 1) % m) + 1]]
WindowEntropy(g, i, j, w, top) == Shannon(TLCEval(Counts(TLCEval(Window(g, i, j, w)), top)))

\* conditional entropy of a cell given its neighbour: H(s,u) - H(u)
Shift == [top |-> <<-1, 0>>, right |-> <<0, 1>>, bottom |-> <<1, 0>>, left |-> <<0, -1>>]
Pairs(g, dir) ==
  LET n == Len(g)  m == Len(g[1])
  IN [k \in 1..(n * m) |->
       LET i == ((k - 1) \div m) + 1  j == ((k - 1) % m) + 1
       IN <<g[i][j], g[Wrap(i + Shift[dir][1], n)][Wrap(j + Shift[dir][2], m)]>>]
Conditional(g, dir, top) ==
  LET vals == {g[i][j] : i \in 1..Len(g), j \in 1..Len(g[1])}
      mn == TLCEval(Min(vals))  mx == TLCEval(Max(vals))
      lev == TLCEval([i \in 1..Len(g) |-> [j \in 1..Len(g[1]) |-> Level(g[i][j], mn, mx, top)]])
      pr == TLCEval(Pairs(lev, dir))
  IN Shannon(TLCEval(Partition(pr))) - Shannon(TLCEval(Partition(TLCEval([p \in DOMAIN pr |-> pr[p][2]]))))

(* ---- correlation of two batches of soups: Pearson over all cells, times 1000 ---- *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == TLCEval((x + n \div x) \div 2) IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE ISqrtFrom(n, n)
RECURSIVE Add(_)
Add(s) == IF s = <<>> THEN 0 ELSE Head(s) + Add(Tail(s))
\* n cells; sums of a, b, a*a, b*b, a*b
Pearson(n, sa, sb, saa, sbb, sab) ==
  LET va == n * saa - sa * sa   vb == n * sbb - sb * sb   c == n * sab - sa * sb
      K(v) == IF v < 30000 THEN 256 ELSE 16
      ka == K(va)  kb == K(vb)
      ra == TLCEval(ISqrt(va * ka * ka))  rb == TLCEval(ISqrt(vb * kb * kb))
      num == TLCEval(((IF c < 0 THEN -c ELSE c) * ka * kb) \div ra)
      r == (num * 1000) \div rb
  IN IF c < 0 THEN -r ELSE r
Flat(va, vb) == va = 0 \/ vb = 0
=============================================================================
