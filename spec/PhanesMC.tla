------------------------------ MODULE PhanesMC -------------------------------
(* Every history of a few soups: the running counts agree with what the whole  *)
(* history says, and dead soups that stay dead make mortality non-decreasing.  *)
EXTENDS YucaPhanes
CONSTANTS Soups, Limit, Absorbing
VARIABLES soups, last, step, hist, over
vars == <<soups, last, step, hist, over>>
S == [1..Soups -> {"dead", "inside", "border"}]
Init == soups = [s \in 1..Soups |-> "inside"] /\ last = [s \in 1..Soups |-> -1] /\ step = 0 /\ hist = <<>> /\ over = FALSE
Tick == /\ ~over
        /\ soups' \in S
        /\ (Absorbing => \A s \in 1..Soups : soups[s] = "dead" => soups'[s] = "dead")
        /\ last' = Vanish(last, soups', step)
        /\ hist' = Append(hist, soups')
        /\ over' = Over(step, Limit, soups')
        /\ step' = step + 1
Next == Tick
Spec == Init /\ [][Next]_vars
\* declarative reading
First(s) == {k \in 1..Len(hist) : hist[k][s] = "dead"}
LastOk == \A s \in 1..Soups : last[s] = (IF First(s) = {} THEN -1 ELSE Min(First(s)) - 1)
StopOk == over <=> (Len(hist) = Limit \/ (Len(hist) > 0 /\ AllDead(hist[Len(hist)])))
NoEarly == \A k \in 1..(Len(hist) - 1) : ~AllDead(hist[k])
Mono == Absorbing => \A k \in 1..(Len(hist) - 1) : Deaths(hist[k]) <= Deaths(hist[k + 1])
Sane == \A k \in 1..Len(hist) : Deaths(hist[k]) + Escapes(hist[k]) <= Soups
\* the fixed-point logarithm: exact on powers of two, additive and increasing within a few units
ASSUME \A k \in 0..16 : Log2(2 ^ k) = k * U
ASSUME \A a \in 1..60, b \in 1..60 : LET d == Log2(a * b) - Log2(a) - Log2(b) IN d \in -16..16
ASSUME \A a \in 1..2000 : Log2(a + 1) >= Log2(a)
\* entropies: uniform partitions, merging never increases, conditioning never increases
ASSUME \A n \in 1..40 : LET h == Shannon([i \in 1..n |-> 3]) - Log2(n) IN h \in -12..12
ASSUME \A a, b, c \in 1..8 : Shannon(<<a, b + c>>) <= Shannon(<<a, b, c>>) + 12
Grids == [1..3 -> [1..3 -> {0, 1}]]
ASSUME \A g \in Grids : \A d \in DOMAIN Shift :
         LET c == Conditional(g, d, 255) IN c >= -16 /\ c <= Shannon(Counts(Places(g), 255)) + 16
\* wrapped windows commute with torus shifts
ASSUME \A g \in Grids : \A i, j \in 1..3 :
         LET h == [a \in 1..3 |-> [b \in 1..3 |-> g[Wrap(a + 1, 3)][Wrap(b + 2, 3)]]]
         IN Window(h, i, j, 3) = Window(g, Wrap(i + 1, 3), Wrap(j + 2, 3), 3)
=============================================================================
