------------------------------ MODULE YucaConf ------------------------------
(* The abstract configuration of an automaton and the rule it stands for.     *)
(* Parameters are integers over PS = 2^20, time steps over 64, grids over SX. *)
(*                                                                            *)
(* A configuration is a record                                                *)
(*   [cls, gen, per, ker, r, dt, idk, pad, dx, x]                             *)
(* gen/per: [name, mode, p, q]    growth functions (for the neural CA gen.p   *)
(*          are the network weights, for Gray-Scott the four constants)       *)
(* ker:     [name, p, rev]        neighbourhood kernel (p in config order,    *)
(*          which is the keyword order reversed when rev = 1)                 *)
(* idk:     "centre" | "cross"    identity kernel;  pad: padding mode         *)
(* x:       TRUE when the rule's float arithmetic is exact (spikes)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PS == 1048576
SX == 8              \* grid values are multiples of 1/8
NS == 256            \* neighbourhoods: kernel weights are multiples of 1/32
FS == 512            \* growth values
OS == SX * FS * 64   \* a stepped cell
SIG == 128           \* sigma of an exact spike: 1/8192

-----------------------------------------------------------------------------
(* parameter vectors *)
HasKernelParams(c) == c.cls \in {"CCA", "NCA"}
Params(c) == c.gen.p \o (IF c.cls = "CCA" THEN c.per.p ELSE <<>>)
             \o (IF HasKernelParams(c) THEN c.ker.p ELSE <<>>)

WithParams(c, v) ==
  LET a == Len(c.gen.p)
      b == IF c.cls = "CCA" THEN Len(c.per.p) ELSE 0
      k == IF HasKernelParams(c) THEN Len(c.ker.p) ELSE 0
      c1 == [c EXCEPT !.gen.p = SubSeq(v, 1, a)]
      c2 == IF c.cls = "CCA" THEN [c1 EXCEPT !.per.p = SubSeq(v, a + 1, a + b)] ELSE c1
  IN IF HasKernelParams(c) THEN [c2 EXCEPT !.ker.p = SubSeq(v, a + b + 1, a + b + k)] ELSE c2

-----------------------------------------------------------------------------
(* kernels: relative weights over the square of radius r *)
Abs(n) == IF n < 0 THEN -n ELSE n

\* 1 iff the cell at squared distance d2 lies exactly at mu*r
OnRing(d2, mu, r) ==
  LET m == mu \div 65536     \* sixteenths; exact rings only use those
  IN /\ mu % 65536 = 0
     /\ d2 * 256 = (m * r) * (m * r)

\* distance in [lo, hi] * r
Between(d2, lo, hi, r) ==
  LET a == lo \div 65536 b == hi \div 65536
  IN d2 * 256 >= (a * r) * (a * r) /\ d2 * 256 <= (b * r) * (b * r)

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

RECURSIVE MixAt(_, _, _)
MixAt(p, d2, r) ==       \* amplitude-weighted rings, in 1/4
  IF p = <<>> THEN 0
  ELSE (IF OnRing(d2, p[2], r) THEN p[1] \div 262144 ELSE 0) + MixAt(SubSeq(p, 4, Len(p)), d2, r)

RECURSIVE PairAt(_, _, _)
PairAt(p, d2, r) ==
  IF p = <<>> THEN 0
  ELSE (IF OnRing(d2, p[1], r) THEN 4 ELSE 0) + PairAt(SubSeq(p, 3, Len(p)), d2, r)

\* the two keyword arguments of a kernel in their usual order
KwArg(ker, i) == ker.p[IF ker.rev = 1 THEN 3 - i ELSE i]

RawWeight(ker, r, d2) ==
  CASE ker.name = "Gaussian" -> IF OnRing(d2, KwArg(ker, 1), r) THEN 4 ELSE 0
    [] ker.name = "GaussianMixture" ->
         Clamp(IF Len(ker.p) % 3 = 0 THEN MixAt(ker.p, d2, r) ELSE PairAt(ker.p, d2, r), 0, 4)
    [] ker.name = "SmoothLifeKernel" -> IF Between(d2, KwArg(ker, 2), KwArg(ker, 1), r) THEN 4 ELSE 0
    [] ker.name = "MooreLike" -> IF d2 = 0 THEN 0 ELSE 4
    [] OTHER -> 0

Box(r) == (-r..r) \X (-r..r)

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumSet(f, S \ {s})

MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n

\* [taps, tot]: the non-zero cells with integer weights, and their sum
Kernel(ker, r) ==
  LET raw == TLCEval([d \in Box(r) |-> RawWeight(ker, r, d[1] * d[1] + d[2] * d[2])])
      low == MinOf({raw[d] : d \in Box(r)})
      nz  == {d \in Box(r) : raw[d] > low}
      w   == TLCEval([d \in nz |-> raw[d] - low])
  IN [w |-> w, tot |-> SumSet(w, nz)]

\* weights exactly representable with the neighbourhood scale
ExactKernel(k) == k.tot = 0 \/ \A d \in DOMAIN k.w : (k.w[d] * (NS \div SX)) % k.tot = 0

ExactSpikes(ker) ==
  CASE ker.name = "Gaussian" -> KwArg(ker, 2) <= SIG
    [] ker.name = "GaussianMixture" ->
         \A i \in 1..Len(ker.p) : (IF Len(ker.p) % 3 = 0 THEN i % 3 = 0 ELSE i % 2 = 0) => ker.p[i] <= SIG
    [] ker.name \in {"SmoothLifeKernel", "MooreLike"} -> TRUE
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* growth functions at a neighbourhood value n (over NS), result over FS *)
At(mu, n) == mu = n * (PS \div NS)

RECURSIVE GMix(_, _, _)
GMix(p, q, n) == IF p = <<>> THEN 0
                 ELSE (IF At(p[1], n) THEN q[1] * (FS \div 4) ELSE 0) + GMix(SubSeq(p, 3, Len(p)), Tail(q), n)

RECURSIVE Intervals(_, _)
Intervals(q, n) == IF q = <<>> THEN 0
                   ELSE (IF 2 * n > q[1][1] /\ 2 * n < q[1][2] THEN FS ELSE 0) + Intervals(Tail(q), n)

Sign(mode, g) == IF mode = 1 THEN 2 * g - FS ELSE g

Growth(f, n) ==
  CASE f.name = "Gaussian" -> Sign(f.mode, IF At(f.p[1], n) THEN FS ELSE 0)
    [] f.name = "DoGaussian" ->    \* g(x+dx) - g(x-dx), q[1] = dx over NS
         (IF At(f.p[1], n + f.q[1]) THEN FS ELSE 0) - (IF At(f.p[1], n - f.q[1]) THEN FS ELSE 0)
    [] f.name = "DoubleGaussian" ->
         Clamp(Sign(f.mode, (IF At(f.p[1], n) THEN FS ELSE 0) + (IF At(f.p[2], n) THEN FS ELSE 0)), IF f.mode = 1 THEN -FS ELSE 0, FS)
    [] f.name = "GaussianMixture" ->
         Clamp(Sign(f.mode, GMix(f.p, f.q, n)), IF f.mode = 1 THEN -FS ELSE 0, FS)
    [] f.name = "SmoothIntervals" -> Sign(f.mode, Intervals(f.q, n))
    [] f.name = "Polynomial" ->    \* c0 + c1 n, coefficients multiples of 1/2
         LET h == f.p[1] \div (PS \div 2)
             i == IF Len(f.p) > 1 THEN f.p[2] \div (PS \div 2) ELSE 0
         IN Sign(f.mode, h * (FS \div 2) + i * n)
    [] f.name = "ReLU" -> n * (FS \div NS)
    [] f.name = "Identity" -> n * (FS \div NS)

-----------------------------------------------------------------------------
(* one step of the configured rule on a grid (rows of integers over SX) *)
Wrap(i, n) == ((i - 1) % n) + 1
Cell(g, pad, y, x) ==
  LET H == Len(g) W == Len(g[1])
  IN IF pad = "circular" THEN g[Wrap(y, H)][Wrap(x, W)]
     ELSE IF y < 1 \/ y > H \/ x < 1 \/ x > W THEN 0 ELSE g[y][x]

RECURSIVE Taps(_, _, _, _, _, _)
Taps(k, D, g, pad, y, x) ==
  IF D = {} THEN 0
  ELSE LET d == CHOOSE d \in D : TRUE
       IN k.w[d] * Cell(g, pad, y + d[1], x + d[2]) + Taps(k, D \ {d}, g, pad, y, x)

\* correlation with a normalised kernel, over NS
Corr(k, g, pad, y, x) ==
  IF k.tot = 0 THEN 0 ELSE (Taps(k, DOMAIN k.w, g, pad, y, x) * (NS \div SX)) \div k.tot

IdKernel(idk) == IF idk = "centre" THEN [w |-> (<<0, 0>> :> 1), tot |-> 1]
                 ELSE Kernel([name |-> "SmoothLifeKernel", p |-> <<PS, PS>>, rev |-> 0], 1)

Predictable(c) == /\ c.x /\ c.cls \in {"CCA", "Lenia"} /\ ExactSpikes(c.ker) /\ ExactKernel(Kernel(c.ker, c.r))

StepOf(c, g) ==
  LET k  == TLCEval(Kernel(c.ker, c.r))
      ik == TLCEval(IdKernel(c.idk))
      One == SX * FS * 64
  IN TLCEval([y \in 1..Len(g) |-> [x \in 1..Len(g[1]) |->
       LET n  == Corr(k, g, c.pad, y, x)
           \* identity over NS (the cross averages four cells)
           id == Corr(ik, g, c.pad, y, x)
           \* over NS * FS
           u  == IF c.cls = "Lenia" THEN Growth(c.gen, n) * NS
                 ELSE (NS - id) * Growth(c.gen, n) + id * Growth(c.per, n)
           v  == g[y][x] * (One \div SX) + (u * c.dt) \div (NS \div SX)
       IN Clamp(v, 0, One)]])
=============================================================================
