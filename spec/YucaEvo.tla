------------------------------ MODULE YucaEvo -------------------------------
(* One generation of the evolution strategy: who is selected, what the search *)
(* distribution becomes, who is in the next population.                       *)
(* Vectors are integers over S = 1024; an individual is known by its id (the  *)
(* exact parameter vector).  Shared by EvoTrace, RunTrace, ParTrace, EvoMC.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 1024
EAbs(n) == IF n < 0 THEN -n ELSE n
EDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)

Keep(n) == n \div 8 + 1
Surv(n) == Keep(n) \div 2

RECURSIVE SumSeq(_, _, _)
SumSeq(s, i, acc) == IF i > Len(s) THEN acc ELSE SumSeq(s, i + 1, TLCEval(acc + s[i]))
Sum(s) == SumSeq(s, 1, 0)
RECURSIVE MaxSeq(_, _, _)
MaxSeq(s, i, acc) == IF i > Len(s) THEN acc ELSE MaxSeq(s, i + 1, IF s[i] > acc THEN s[i] ELSE acc)
Max(s) == MaxSeq(s, 2, s[1])
Min(s) == -Max([i \in 1..Len(s) |-> -s[i]])
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
CountGt(s, v) == Cardinality({i \in DOMAIN s : s[i] > v})

(* elites e (ids) drawn from individuals ids with fitness fit *)
Fit(ids, fit, x) == fit[CHOOSE i \in DOMAIN ids : ids[i] = x]
Known(ids, e) == Range(e) \subseteq Range(ids)
DistinctDraw(ids, e) == \A x \in Range(e) : Count(e, x) <= Count(ids, x)
EFit(ids, fit, e) == [j \in DOMAIN e |-> Fit(ids, fit, e[j])]
BestFirst(ef) == \A j \in 1..(Len(ef) - 1) : ef[j] >= ef[j + 1]
\* the truly best: everything better than the worst elite is an elite
TrulyBest(fit, ef) == \A v \in Range(fit) : v > Min(ef) => Count(ef, v) = Count(fit, v)
Truncated(ids, fit, e) ==
  /\ DistinctDraw(ids, e)
  /\ BestFirst(EFit(ids, fit, e)) /\ TrulyBest(fit, EFit(ids, fit, e))
\* brackets: the places (1..n) drawn for each elite
Champions(ids, fit, e, brackets) ==
  \A j \in DOMAIN e : /\ e[j] \in {ids[i] : i \in Range(brackets[j])}
                      /\ Fit(ids, fit, e[j]) = Max([i \in DOMAIN brackets[j] |-> fit[brackets[j][i]]])

(* the distribution selected: mean of the elites and mean outer product of    *)
(* their deviations from the previous mean                                    *)
MeanIs(ev, mean) ==
  \A c \in DOMAIN mean : EAbs(Len(ev) * mean[c] - Sum([j \in DOMAIN ev |-> ev[j][c]])) <= Len(ev) + 1
Outer(ev, old, a, b) == Sum([j \in DOMAIN ev |-> EDiv((ev[j][a] - old[a]) * (ev[j][b] - old[b]), S)])
CovIs(ev, old, cov) ==
  \A a \in DOMAIN cov : \A b \in DOMAIN cov : EAbs(Len(ev) * cov[a][b] - Outer(ev, old, a, b)) <= 20 * Len(ev)
HasSpread(cov) == \E a \in DOMAIN cov : cov[a][a] > 4

(* the next population: survivors are the leading elites, the others are new  *)
Survives(e, n, new) == \A x \in Range(SubSeq(e, 1, Surv(n))) : Count(new, x) >= Count(SubSeq(e, 1, Surv(n)), x)
OthersFresh(ids, e, n, new) ==
  /\ Cardinality({i \in DOMAIN new : new[i] \in Range(ids)}) = Surv(n)
  /\ \A i \in DOMAIN new : new[i] \notin Range(ids) => Count(new, new[i]) = 1
\* with one elite every sample lies on the line through the two means
OnLine(mean, old, x) ==
  \A a \in DOMAIN mean : \A b \in DOMAIN mean :
     EAbs(EDiv((x[a] - mean[a]) * (mean[b] - old[b]), S) - EDiv((x[b] - mean[b]) * (mean[a] - old[a]), S)) <= 80

(* sample statistics of many fresh individuals against the distribution       *)
Avg(xs, c) == EDiv(Sum([i \in DOMAIN xs |-> xs[i][c]]), Len(xs))
Co(xs, mean, a, b) == EDiv(Sum([i \in DOMAIN xs |-> EDiv((xs[i][a] - mean[a]) * (xs[i][b] - mean[b]), 16384)]), Len(xs))  \* over 64
SampledFrom(xs, mean, cov) ==
  LET m == Len(xs)
      v(a) == cov[a][a] \div 16 + 1
      c(a, b) == EDiv(cov[a][b], 16)
      lim(d) == IF d > 900 THEN 900 ELSE d
  IN /\ \A a \in DOMAIN mean :
           LET d == lim(EAbs(Avg(xs, a) - mean[a]) \div 4) IN ((d * d) \div 64) * m <= 2000 * v(a)
     /\ \A a \in DOMAIN mean : \A b \in DOMAIN mean :
           LET d == lim(EAbs(Co(xs, mean, a, b) - c(a, b))) IN ((d * d) \div 32) * m <= v(a) * v(b) + c(a, b) * c(a, b) + 2 * m

(* how often the champion of a bracket / the first of a draw has rank r, over 10^4 *)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
ChampP(n, r) == LET k == Keep(n) IN (10000 * (Pow(n - r + 1, k) - Pow(n - r, k))) \div Pow(n, k)
RECURSIVE Zeta(_, _)
Zeta(n, acc) == IF n = 0 THEN acc ELSE Zeta(n - 1, acc + 1000000 \div (n * n))
PropP(n, r) == ((1000000 \div (r * r)) * 100) \div (Zeta(n, 0) \div 100)
\* counts[r] of total draws within about 5.5 standard deviations
TallyOk(counts, P(_)) ==
  LET tot == Sum(counts)
  IN \A r \in DOMAIN counts :
       LET ex == (tot * P(r)) \div 10000 d == EAbs(counts[r] - ex) IN d * d <= 30 * ex + 60
=============================================================================
