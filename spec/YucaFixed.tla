----------------------------- MODULE YucaFixed ------------------------------
(* Fixed-point arithmetic for the formulas that are not exact in integers.    *)
(* Numbers are integers over F = 2^14; every function is within a few units   *)
(* (checked by FixedMC); the trace specs allow an explicit tolerance.         *)
EXTENDS Integers, Sequences, TLC

F == 16384

FAbs(n) == IF n < 0 THEN -n ELSE n
FClamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* rounded division of possibly negative numbers
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))

\* product of two fixed-point numbers below 8 in size
PMul(a, b) == (a \div F) * b + ((a % F) * b + F \div 2) \div F
Mul(a, b) == IF a >= 0 THEN (IF b >= 0 THEN PMul(a, b) ELSE -PMul(a, -b))
             ELSE (IF b >= 0 THEN -PMul(-a, b) ELSE PMul(-a, -b))

RECURSIVE ExpStep(_, _, _)
\* multiply in the powers exp(-2^j) that make up t
ExpStep(t, acc, j) ==
  LET C == <<5, 300, 2217, 6027, 9937, 12760, 14459, 15391>>   \* exp(-8),(-4),..,(-1/16) over F
      D == <<131072, 65536, 32768, 16384, 8192, 4096, 2048, 1024>>
  IN IF j > 8
     THEN LET s == TLCEval(t) IN Mul(acc, F - s + (s * s) \div (2 * F) - (((s * s) \div F) * s) \div (6 * F))
     ELSE IF t >= D[j] THEN ExpStep(TLCEval(t - D[j]), TLCEval(Mul(acc, C[j])), j + 1) ELSE ExpStep(t, acc, j + 1)

\* exp(-t) for t >= 0
ExpNeg(t) == IF t >= 11 * F THEN 0 ELSE ExpStep(t, F, 1)

\* logistic 1/(1+exp(-x)); x is cut at +-12
Sigmoid(x) ==
  LET a == TLCEval(FClamp(FAbs(x), 0, 12 * F))
      e == TLCEval(ExpNeg(a))
      s == (F * F) \div (F + e)
  IN IF x >= 0 THEN s ELSE F - s

Tanh(x) ==
  LET a == TLCEval(FClamp(FAbs(x), 0, 6 * F))
      e == TLCEval(ExpNeg(2 * a))
      r == ((F - e) * F) \div (F + e)
  IN IF x >= 0 THEN r ELSE -r

\* exp(-((x-mu)/sigma)^2/2) for sigma > 0
Bump(x, mu, sigma) ==
  LET d == TLCEval(FAbs(x - mu)) IN
  IF d >= 5 * sigma THEN 0
  ELSE LET z == TLCEval((d * F) \div sigma)            \* below 5 F
       IN ExpNeg(Mul(z, z) \div 2)

\* cosine of a non-negative angle
PI == 51472
RECURSIVE Fold(_)
Fold(a) == IF a > 2 * PI THEN Fold(a - 2 * PI) ELSE a     \* a below a few turns
CosQ(a) ==  \* 0..pi/2
  LET q == (a * a) \div F
      q2 == Mul(q, q)
      q3 == Mul(q2, q)
      q4 == Mul(q2, q2)
  IN F - q \div 2 + q2 \div 24 - q3 \div 720 + q4 \div 40320
Cos(a) ==
  LET b == Fold(a)
      c == IF b > PI THEN 2 * PI - b ELSE b
  IN IF c <= PI \div 2 THEN CosQ(c) ELSE -CosQ(PI - c)

Relu(x) == IF x > 0 THEN x ELSE 0
Elu(x) == IF x > 0 THEN x ELSE ExpNeg(FClamp(-x, 0, 11 * F)) - F
Silu(x) == Mul(x, Sigmoid(x))
=============================================================================
