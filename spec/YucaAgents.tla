---------------------------- MODULE YucaAgents -----------------------------
(* Agents as values: what an agent does is a function of its kind, its shape  *)
(* (channels, grid size, hidden width), its parameter vector and its filter.  *)
EXTENDS Integers, Sequences, FiniteSets

PScale == 10000                 \* rule parameters are in 1/PScale
Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* filtering keeps the magnitude, within [0.0001, 1]
Filtered(v) == [i \in DOMAIN v |-> Clip(Abs(v[i]), 1, PScale)]

NoAgent == [kind |-> "none", shape |-> 0, pat |-> 0, rule |-> <<>>, filter |-> FALSE]
HasPattern(a) == a.kind \in {"cppn", "plus"}
HasRule(a) == a.kind \in {"rule", "plus"}
RuleAction(a) == IF a.filter THEN Filtered(a.rule) ELSE a.rule

(* The envelope of a pattern on a d x d grid spanning [-1,1]^2: the squared   *)
(* distance to the rim, a millionth of it from three quarters outwards.       *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
RU == 2048                      \* radii in 1/RU
Radius(i, j, d) ==
  LET y == 2 * (i - 1) - (d - 1)
      x == 2 * (j - 1) - (d - 1)
      D == (d - 1) * (d - 1)
      n == x * x + y * y
      r == (n % D) * RU
      \* n * RU * RU \div D in steps that stay small
  IN Root((n \div D) * RU * RU + (r \div D) * RU + ((r % D) * RU) \div D, 0, 46000)
Rim == (3 * RU) \div 4
Outside(i, j, d) == Radius(i, j, d) > Rim + 4
Inside(i, j, d) == Radius(i, j, d) < Rim - 4
\* (1-r)^2 in millionths, and how far rounding the radius can put it off
Env(i, j, d) == LET s == Abs(RU - Radius(i, j, d)) IN (((s * s) \div 16) * 3815) \div 1000
EnvTol == 1600

\* cell value v6 (millionths) and v12 (millionths of millionths) of a pattern
\* whose network says 1 everywhere
FullCell(v6, v12, i, j, d) ==
  /\ Inside(i, j, d) => Abs(v6 - Env(i, j, d)) <= EnvTol
  /\ Outside(i, j, d) => v6 <= 1 /\ Abs(v12 - Env(i, j, d)) <= EnvTol
\* any pattern stays under the envelope
UnderCell(v6, v12, i, j, d) ==
  /\ v6 >= 0 /\ v12 >= 0
  /\ Inside(i, j, d) => v6 <= Env(i, j, d) + EnvTol
  /\ Outside(i, j, d) => v6 <= 1 /\ v12 <= Env(i, j, d) + EnvTol
EmptyCell(v6, v12) == v6 = 0 /\ v12 = 0
=============================================================================
