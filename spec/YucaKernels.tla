---------------------------- MODULE YucaKernels -----------------------------
(* Kernels against their profiles: a record e holds the profile f, the radius *)
(* r, the distance scale rs (over 64), the edge mode (0 none, 1 along x, 2    *)
(* along y) with its shift ek (over 64 cells), and the weights: ks over 2^16  *)
(* (for values) and fine over 2^26 (for symmetry).                            *)
EXTENDS YucaProfiles, TraceBase, SequencesExt

RECURSIVE ISqrtB(_, _, _)
\* bitwise integer square root
ISqrtB(n, s, b) == IF b = 0 THEN s
                   ELSE IF s + b <= 46340 /\ (s + b) * (s + b) <= n THEN ISqrtB(n, s + b, b \div 2) ELSE ISqrtB(n, s, b \div 2)
\* 2^14 * sqrt(n) / 64 for n < 2^21
Root(n) == IF n = 0 THEN 0
           ELSE LET N == n * 1024
                    s == ISqrtB(N, 0, 32768)
                IN 8 * s + ((N - s * s) * 4) \div s
\* distance of the cell (x, y) (over 64 cells) from the centre in radii, over F
Scaled(d, r, rs) == ((d \div r) * rs) \div 64 + (((d % r) * rs) \div (64 * r))
Dist(x, y, r, rs) ==
  IF r > 15 /\ x % 64 = 0 /\ y % 64 = 0
  THEN LET a == x \div 16 b == y \div 16 IN Scaled(TLCEval(16 * Root(a * a + b * b)), r, rs)
  ELSE Scaled(TLCEval(Root(x * x + y * y)), r, rs)

SumTo(s, n) == FoldLeft(LAMBDA a, v : a + v, 0, s)      \* n is the length
MinTo(s, n) == FoldLeft(LAMBDA a, v : IF v < a THEN v ELSE a, s[1], s)

Side(e) == 2 * e.r + 1
\* cell offsets of flat index i
DY(e, i) == ((i - 1) \div Side(e)) - e.r
DX(e, i) == ((i - 1) % Side(e)) - e.r

Prof(e, x, y) ==
  LET d == Dist(x, y, e.r, e.rs) IN
  IF e.f.k = "log" THEN LogRaw(e.f.sigma, d) ELSE Value(e.f, d)
Raws(e) ==
  [i \in 1..(Side(e) * Side(e)) |->
     LET x == 64 * DX(e, i) y == 64 * DY(e, i) IN
     CASE e.edge = 0 -> Prof(e, x, y)
       [] e.edge = 1 -> Prof(e, x - e.ek, y) - Prof(e, x + e.ek, y)
       [] e.edge = 2 -> Prof(e, x, y - e.ek) - Prof(e, x, y + e.ek)]

\* weights follow the profile; only judged when the profile is far from constant
ValuesOK(e) ==
  LET n == Side(e) * Side(e)
      p == TLCEval(Raws(e))
      m == IF e.f.k = "log" THEN RDiv(SumTo(p, n), n) ELSE MinTo(p, n)
      s == TLCEval(SumTo([i \in 1..n |-> FAbs(p[i] - m)], n))
      tol == (40 * 65536) \div s + 3
  IN s < F \div 4 \/ \A i \in 1..n : FAbs(((p[i] - m) * 32768) \div s - e.ks[i] \div 2) * 2 <= tol + 2

D2(e, i) == DX(e, i) * DX(e, i) + DY(e, i) * DY(e, i)
\* cells at one distance share one weight; judged against a representative:
\* the reflections and the transposition generate every lattice symmetry, and
\* the remaining coincidences (3,4)~(5,0).. are covered by ValuesOK
At(e, dy, dx) == e.fine[(dy + e.r) * Side(e) + dx + e.r + 1]
IsotropicOK(e) ==
  \A i \in 1..(Side(e) * Side(e)) :
    LET y == DY(e, i) x == DX(e, i) w == e.fine[i] IN
    FAbs(w - At(e, -y, x)) <= e.ftol /\ FAbs(w - At(e, y, -x)) <= e.ftol /\ FAbs(w - At(e, x, y)) <= e.ftol
\* an edge kernel is antisymmetric up to the constant its minimum introduced
EdgeOK(e) ==
  LET c == 2 * At(e, 0, 0) IN
  \A i \in 1..(Side(e) * Side(e)) :
    LET y == DY(e, i) x == DX(e, i) w == e.fine[i] IN
    /\ FAbs(w + At(e, -y, -x) - c) <= 2 * e.ftol
    /\ FAbs(w - (IF e.edge = 1 THEN At(e, -y, x) ELSE At(e, y, -x))) <= e.ftol

\* every cell has one profile value (a saturated mixture on a small kernel)
Constant(e) == LET p == TLCEval(Raws(e)) IN \A i \in 1..Len(p) : FAbs(p[i] - p[1]) <= 2

\* a profile with only one value gives the zero kernel; e.flat says the driver chose one
KernelFails(e) ==
  LET n == Side(e) * Side(e) IN
  Fail("shape", e.shape = <<1, 1, Side(e), Side(e)>>) \cup
  (IF e.shape # <<1, 1, Side(e), Side(e)>> THEN {} ELSE
  Fail("finite", \A i \in 1..n : FAbs(e.fine[i]) <= 67108864) \cup
  Fail("profile", e.flat \/ ValuesOK(e)) \cup
  (IF e.edge = 0 THEN Fail("isotropic", IsotropicOK(e)) ELSE Fail("edge", EdgeOK(e))) \cup
  Fail("caller-config", e.pure) \cup
  (IF e.f.k = "log"
   THEN Fail("zero-sum", FAbs(e.sum) <= 64) \cup Fail("normalised", FAbs(e.abssum - 1048576) <= 64)
   ELSE Fail("non-negative", \A i \in 1..n : e.fine[i] >= 0) \cup
        Fail("minimum-zero", \E i \in 1..n : e.fine[i] = 0) \cup
        Fail("sums-to-one", FAbs(e.sum - (IF e.flat THEN 0 ELSE 1048576)) <= 64 \/ (e.sum \in 0..1048576 /\ Constant(e)))))

Moore(e) ==
  LET s == 2 * e.r + 1 n == s * s IN
  Fail("shape", e.shape = <<1, 1, s, s>>) \cup
  Fail("moore", \A i \in 1..n : IF i = (n + 1) \div 2 THEN e.w[i] = 0
                                ELSE FAbs(e.w[i] * (n - 1) - 268435456) <= n)
=============================================================================
