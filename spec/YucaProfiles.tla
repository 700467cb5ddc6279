---------------------------- MODULE YucaProfiles -----------------------------
(* Growth functions and kernel profiles by their published formulas, over     *)
(* YucaFixed numbers (F = 1.0).  f.k names the family, f.mode signed output.  *)
EXTENDS YucaFixed

Bmp(x, mu, sigma) ==    \* width may be negative (only its size counts) or zero
  IF sigma = 0 THEN (IF x = mu THEN F ELSE 0) ELSE Bump(x, mu, FAbs(sigma))

RECURSIVE SumMix(_, _, _)
\* sum of amplitude * bump over triples <<a, mu, sigma>>
SumMix(t, x, i) == IF i > Len(t) THEN 0 ELSE Mul(t[i][1], Bmp(x, t[i][2], t[i][3])) + SumMix(t, x, i + 1)

\* logistic 1/(1+exp(-4(x-m)/alpha)), alpha = an/ad
Logistic(x, m, an, ad) == Sigmoid(FClamp(RDiv(4 * ad * (x - m), an), -12 * F, 12 * F))
RECURSIVE SumSteps(_, _, _, _, _)
SumSteps(t, an, ad, x, i) ==
  IF i > Len(t) THEN 0
  ELSE Mul(Logistic(x, t[i][1], an, ad), F - Logistic(x, t[i][2], an, ad)) + SumSteps(t, an, ad, x, i + 1)

RECURSIVE Power(_, _)
Power(x, i) == IF i = 0 THEN F ELSE Mul(Power(x, i - 1), x)
RECURSIVE SumPoly(_, _, _)
SumPoly(c, x, i) == IF i > Len(c) THEN 0 ELSE Mul(Power(x, i - 1), c[i]) + SumPoly(c, x, i + 1)

CosX2(x, mu, omega) ==
  LET d == FAbs(mu - x) IN (Cos(Mul(omega, d)) * F) \div (F + 100 * ((d * d) \div F) + (100 * ((d * d) % F)) \div F)

\* unsigned value
Raw(f, x) ==
  CASE f.k = "gauss" -> Bmp(x, f.mu, f.sigma)
    [] f.k = "mix" -> FClamp(SumMix(f.t, x, 1), 0, F)
    [] f.k = "dog" -> Bmp(x + f.dx, f.mu, f.sigma) - Bmp(x - f.dx, f.mu, f.sigma)
    [] f.k = "steps" -> SumSteps(f.t, f.an, f.ad, x, 1)
    [] f.k = "poly" -> SumPoly(f.c, x, 1)
    [] f.k = "identity" -> x
    [] f.k = "ring" -> IF x >= f.ri /\ x <= f.ra THEN F ELSE 0
    [] OTHER -> 0

Value(f, x) ==
  CASE f.k = "cosx2" -> CosX2(x, f.mu, f.omega) + (IF f.mode = 0 THEN F ELSE 0)
    [] OTHER -> IF f.mode = 0 THEN Raw(f, x) ELSE 2 * Raw(f, x) - F

\* the (negated) Laplacian of a Gaussian up to a positive constant, at distance x
LogRaw(sigma, x) ==
  LET z == (FAbs(x) * F) \div sigma
      h == Mul(z, z) \div 2
  IN IF z > 5 * F THEN 0 ELSE -Mul(ExpNeg(h), F - h)
=============================================================================
