------------------------------ MODULE FixedMC -------------------------------
(* Sanity of the fixed-point functions: functional equations over a sweep.    *)
EXTENDS YucaFixed
VARIABLES a, b
Init == a \in 0..60 /\ b \in 0..60
Step(v) == v + 61
Next == a' = a + 61 /\ b' = b /\ a < 200
A == a * 137
B == b * 1021
Near(x, y, t) == FAbs(x - y) <= t
ExpHom == Near(Mul(ExpNeg(A), ExpNeg(B)), ExpNeg(A + B), 6)
ExpMono == ExpNeg(A) + 2 >= ExpNeg(A + 7)
TanhOdd == Tanh(-A) = -Tanh(A)
SigSym == Near(Sigmoid(A) + Sigmoid(-A), F, 1)
\* tanh(x) = 2 sigmoid(2x) - 1
TanhSig == Near(Tanh(A \div 2), 2 * Sigmoid(2 * (A \div 2)) - F, 6)
\* cos 2x = 2 cos^2 x - 1
CosDouble == Near(Cos(2 * A), 2 * Mul(Cos(A), Cos(A)) - F, 12)
CosRange == Cos(A) \in -F-8..F+8
BumpSym == Bump(20000 + A \div 8, 20000, 3000 + B \div 4) = Bump(20000 - A \div 8, 20000, 3000 + B \div 4)
BumpPeak == Bump(A, A, 100 + B) = F
\* one sigma out: exp(-1/2) = 9937/F
BumpSigma == Near(Bump(B + 2000, 2000, B), 9937, 12) \/ B < 1000
Spec == Init /\ [][Next]_<<a, b>>
=============================================================================
