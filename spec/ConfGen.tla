------------------------------ MODULE ConfGen -------------------------------
(* Generates histories of configuration operations on a small heap of         *)
(* automata (objects 1..3) and configuration files (1..2).  OPS (environment) *)
(* selects the operations; every behaviour is printed as a scenario for the   *)
(* real code.                                                                 *)
EXTENDS YucaConf, Json, IOUtils, TLC

OpsName == IOEnv.CONF_OPS
Depth == 12

VARIABLES cas, files, hist, done
vars == <<cas, files, hist, done>>

None == [cls |-> "none"]

-----------------------------------------------------------------------------
\* random values; always bound through \E x \in {...} so they are drawn once
R(S) == RandomElement(S)
Eighth == PS \div 8
MuX == {k * Eighth : k \in 0..8}
Val(kind, x) ==
  CASE kind = "mu"  -> IF x THEN R(MuX) ELSE R(0..PS)
    [] kind = "sig" -> IF x THEN R({SIG, SIG \div 2}) ELSE R(30000..300000)
    [] kind = "kmu" -> IF x THEN R({k * Eighth : k \in {2, 4, 4, 6, 8}}) ELSE R(100000..PS)
    [] kind = "ksig" -> IF x THEN R({SIG, SIG \div 2}) ELSE R(60000..300000)
    [] kind = "amp" -> R({k * 262144 : k \in 1..4})
    [] kind = "coef" -> R({k * (PS \div 2) : k \in -2..2})
    [] kind = "ra"  -> R({12, 16, 18}) * 65536
    [] kind = "ri"  -> R({4, 8, 16}) * 65536
    [] kind = "om"  -> R(1..12) * PS
    [] kind = "w"   -> IF R(1..6) = 1 THEN R(-9000..9000) * 1024 ELSE R(-1000..1000) * 1024
    [] kind = "du"  -> R(10..60)
    [] kind = "dv"  -> R(5..30)
    [] kind = "f"   -> IF R(1..8) = 1 THEN R(-9000..-1) ELSE R(20000..70000)
    [] kind = "k"   -> R(40000..70000)
    [] OTHER -> 0

FnKinds(f) ==
  CASE f.name \in {"Gaussian", "DoGaussian"} -> <<"mu", "sig">>
    [] f.name = "DoubleGaussian" -> <<"mu", "mu", "sig", "sig">>
    [] f.name = "GaussianMixture" -> [i \in 1..Len(f.p) |-> IF i % 2 = 1 THEN "mu" ELSE "sig"]
    [] f.name = "Polynomial" -> [i \in 1..Len(f.p) |-> "coef"]
    [] f.name = "Weights" -> [i \in 1..Len(f.p) |-> "w"]
    [] f.name = "GrayScott" -> <<"du", "dv", "f", "k">>
    [] OTHER -> <<>>

KwKinds(k) ==
  CASE k.name \in {"Gaussian", "DoGaussian"} -> <<"kmu", "ksig">>
    [] k.name = "GaussianMixture" ->
         IF Len(k.p) % 3 = 0 THEN [i \in 1..Len(k.p) |-> <<"amp", "kmu", "ksig">>[((i - 1) % 3) + 1]]
         ELSE [i \in 1..Len(k.p) |-> IF i % 2 = 1 THEN "kmu" ELSE "ksig"]
    [] k.name = "CosOverX2" -> <<"kmu", "om">>
    [] k.name = "SmoothLifeKernel" -> <<"ra", "ri">>
    [] OTHER -> <<>>

\* keyword arguments may come in any order
KerKinds(k) == LET s == KwKinds(k) IN IF k.rev = 1 THEN <<s[2], s[1]>> ELSE s

Draw(kinds, x) == TLCEval([i \in 1..Len(kinds) |-> Val(kinds[i], x)])
VecOf(c) == TLCEval(Draw(FnKinds(c.gen), c.x)
            \o (IF c.cls = "CCA" THEN Draw(FnKinds(c.per), c.x) ELSE <<>>)
            \o (IF HasKernelParams(c) THEN Draw(KerKinds(c.ker), c.x) ELSE <<>>))

Fn(name, n, x) ==
  LET f0 == [name |-> name, mode |-> IF name \in {"DoGaussian", "ReLU", "Identity"} THEN 0 ELSE R(0..1),
             p |-> [i \in 1..n |-> 0],
             q |-> CASE name = "DoGaussian" -> <<R({16, 32})>>
                     [] name = "GaussianMixture" /\ n % 4 = 0 -> <<4, 4>>
                     [] name = "GaussianMixture" /\ n = 2 -> <<R({4})>>
                     [] name = "SmoothIntervals" ->
                          LET a == R(0..20) * 16 + 1 IN <<<<a, a + 32 * R(1..6)>>>>
                     [] OTHER -> <<>>]
      f == TLCEval(f0)
  IN TLCEval([f EXCEPT !.p = Draw(FnKinds(f), x)])

\* a mixture given by triples carries its own amplitudes
MixT(n, x) ==
  LET f == Fn("GaussianMixture", 2 * n, x)
  IN TLCEval([f EXCEPT !.q = [i \in 1..n |-> R(1..5)]])

AnyFn(x) ==
  LET k == R(1..11) IN
  CASE k = 1 \/ k = 2 -> Fn("Gaussian", 2, x)
    [] k = 3 -> Fn("DoGaussian", 2, x)
    [] k = 4 -> Fn("DoubleGaussian", 4, x)
    [] k = 5 -> [Fn("GaussianMixture", 2, x) EXCEPT !.q = <<4>>]
    [] k = 6 -> MixT(1, x)
    [] k = 7 -> MixT(2, x)
    [] k = 8 -> Fn("Polynomial", R(1..2), x)
    [] k = 9 -> Fn("SmoothIntervals", 0, x)
    [] k = 10 -> Fn(R({"ReLU", "Identity"}), 0, x)
    [] k = 11 -> [Fn("GaussianMixture", 4, x) EXCEPT !.q = <<4, 4>>]

Ker(name, n, x) == LET rev == IF name \in {"Gaussian", "DoGaussian", "CosOverX2", "SmoothLifeKernel"} /\ R(1..3) = 1 THEN 1 ELSE 0
                       k == TLCEval([name |-> name, p |-> [i \in 1..n |-> 0], rev |-> rev])
                   IN TLCEval([k EXCEPT !.p = Draw(KerKinds(k), x)])

AnyKer(x) ==
  LET k == R(1..(IF x THEN 6 ELSE 8)) IN
  CASE k = 1 \/ k = 2 -> Ker("Gaussian", 2, x)
    [] k = 3 -> Ker("GaussianMixture", R({2, 4}), x)
    [] k = 4 -> Ker("GaussianMixture", R({3, 6}), x)
    [] k = 5 -> Ker("MooreLike", 0, x)
    [] k = 6 -> Ker("SmoothLifeKernel", 2, x)
    [] k = 7 -> Ker("CosOverX2", 2, x)
    [] k = 8 -> Ker("DoGaussian", 2, x)

DtSet == {4, 8, 16, 32, 64, 96}
Radii == {1, 2, 3, 4}

\* (the argument keeps TLC from evaluating this once and for all)
AnyConf(h) ==
  LET k   == TLCEval(R(1..10))
      c0  == IF k <= 5 THEN "CCA" ELSE IF k <= 7 THEN "Lenia" ELSE IF k <= 9 THEN "NCA" ELSE "RxnDfn"
      x0  == R(1..3) > 1
      cl  == TLCEval(c0)
      x   == TLCEval(IF cl \in {"NCA", "RxnDfn"} THEN FALSE ELSE x0)
  IN TLCEval([cls |-> cl,
      gen |-> IF cl = "NCA" THEN Fn("Weights", 10, FALSE) ELSE IF cl = "RxnDfn" THEN Fn("GrayScott", 4, FALSE) ELSE AnyFn(x),
      per |-> IF cl \in {"NCA", "RxnDfn"} THEN [name |-> "none", mode |-> 0, p |-> <<>>, q |-> <<>>] ELSE AnyFn(x),
      ker |-> IF cl = "RxnDfn" THEN [name |-> "LaplacianOfGaussian", p |-> <<524288>>, rev |-> 0] ELSE AnyKer(x),
      r |-> R(Radii), dt |-> IF OpsName # "C04" /\ cl # "RxnDfn" /\ R(1..5) = 1 THEN 0 ELSE R(DtSet),   \* 0: not stated
      idk |-> IF cl = "RxnDfn" THEN "centre" ELSE IF R(1..3) = 1 THEN "cross" ELSE "centre",
      pad |-> IF cl = "RxnDfn" THEN "circular" ELSE R({"circular", "zeros"}),
      dx |-> IF cl = "RxnDfn" THEN R(3000..9000) ELSE 0,
      x |-> x])

-----------------------------------------------------------------------------
Live == {o \in 1..3 : cas[o].cls # "none"}
Log(e) == hist' = Append(hist, e)

Init == /\ cas = [o \in 1..3 |-> None]
        /\ files = [f \in 1..2 |-> None]
        /\ hist = <<>>
        /\ done = FALSE

Build == \E o \in {R(1..3)} : \E c \in {AnyConf(hist)} :
  /\ cas' = [cas EXCEPT ![o] = c]
  /\ Log([k |-> "build", o |-> o, c |-> c])
  /\ UNCHANGED files

SetParams == \E o \in Live : \E v \in {VecOf(cas[o])} :
  /\ cas' = [cas EXCEPT ![o] = WithParams(cas[o], v)]
  /\ Log([k |-> "params", o |-> o, v |-> v])
  /\ UNCHANGED files

RoundTrip == \E o \in Live :
  /\ Log([k |-> "roundtrip", o |-> o]) /\ UNCHANGED <<cas, files>>

SetDt == \E o \in Live : \E v \in {R(DtSet)} :
  /\ cas' = [cas EXCEPT ![o].dt = v]
  /\ Log([k |-> "dt", o |-> o, v |-> v]) /\ UNCHANGED files

SetRadius == \E o \in Live : \E v \in {R(Radii)} :
  /\ cas' = [cas EXCEPT ![o].r = v]
  /\ Log([k |-> "radius", o |-> o, v |-> v]) /\ UNCHANGED files

SetKernel == \E o \in Live : \E ker \in {AnyKer(cas[o].x)} : \E v \in {R(Radii)} :
  /\ cas[o].cls # "RxnDfn"
  /\ cas' = [cas EXCEPT ![o].ker = ker, ![o].r = v]
  /\ Log([k |-> "kernel", o |-> o, ker |-> ker, r |-> v]) /\ UNCHANGED files

\* load another configuration of the same class into an existing automaton
Load == \E o \in Live : \E c \in {AnyConf(hist)} :
  /\ c.cls = cas[o].cls
  /\ cas' = [cas EXCEPT ![o] = [c EXCEPT !.pad = cas[o].pad]]
  /\ Log([k |-> "load", o |-> o, c |-> c]) /\ UNCHANGED files

Step == \E o \in Live : Log([k |-> "step", o |-> o]) /\ UNCHANGED <<cas, files>>
Reset == \E o \in Live : Log([k |-> "reset", o |-> o]) /\ UNCHANGED <<cas, files>>

\* a fresh automaton configured directly with the same settings
Ref == \E o \in Live : \E o2 \in (1..3) \ {o} :
  /\ cas' = [cas EXCEPT ![o2] = cas[o]]
  /\ Log([k |-> "build", o |-> o2, c |-> cas[o]]) /\ UNCHANGED files

\* a fresh automaton of the same structure given the same vector
Twin == \E o \in {p \in Live : cas[p].dt > 0} : \E o2 \in (1..3) \ {o} : \E v \in {VecOf(cas[o])} :
  /\ cas' = [cas EXCEPT ![o2] = cas[o]]
  /\ Log([k |-> "twin", o |-> o2, c |-> WithParams(cas[o], v), v |-> Params(cas[o])]) /\ UNCHANGED files

Save == \E o \in Live : \E f \in {R(1..2)} :
  /\ files' = [files EXCEPT ![f] = cas[o]]
  /\ Log([k |-> "save", o |-> o, f |-> f]) /\ UNCHANGED cas

\* restore over an existing automaton of the class, or into a new one
Restore == \E o \in 1..3 : \E f \in 1..2 : \E how \in {R({"over", "ctor", "new"})} :
  /\ files[f].cls # "none"
  /\ how = "over" => cas[o].cls = files[f].cls
  /\ cas' = [cas EXCEPT ![o] = files[f]]
  /\ Log([k |-> "restore", o |-> o, f |-> f, cls |-> files[f].cls,
          how |-> IF files[f].cls = "RxnDfn" /\ how = "ctor" THEN "new" ELSE how]) /\ UNCHANGED files

\* a default-built automaton (random rule); several channels only where no
\* configuration has to be stored
Default == \E o \in {R(1..3)} : \E cls \in {R({"CCA", "NCA", "Lenia", "RxnDfn"})} : \E r \in {R(1..4)} :
           \E np \in {R(1..4)} : \E act \in {R({"Tanh", "Gaussian", "ReLU", "Sigmoid", "ELU", "SiLU", "Identity"})} :
           \E thr \in {R(0..3)} : \E sd \in {R(1..100000)} : \E pad \in {R({"circular", "circular", "zeros", "reflect"})} :
           \E ch \in {IF (OpsName = "C04" /\ cls \in {"CCA", "Lenia"}) \/ cls = "NCA" THEN R({<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<4, 4>>, <<2, 4>>, <<1, 5>>, <<2, 6>>}) ELSE <<1, 1>>} :
  LET \* the Gaussian activation has trainable mu and sigma, twice
      Fns == Fn("GaussianMixture", 2 * ch[2], FALSE)     \* only its layout matters
      c == [cls |-> cls,
            gen |-> IF cls = "NCA" THEN Fn("Weights", 4 * ch[2] + 4 + 2 * ch[1] + (IF act = "Gaussian" THEN 4 ELSE 0), FALSE) ELSE IF cls = "RxnDfn" THEN Fn("GrayScott", 4, FALSE) ELSE Fns,
            per |-> IF cls \in {"NCA", "RxnDfn"} THEN [name |-> "none", mode |-> 0, p |-> <<>>, q |-> <<>>] ELSE Fns,
            ker |-> IF cls = "RxnDfn" THEN [name |-> "LaplacianOfGaussian", p |-> <<524288>>, rev |-> 0] ELSE Ker("GaussianMixture", 3 * np, FALSE),
            r |-> IF cls = "RxnDfn" THEN 1 ELSE r, dt |-> 0, idk |-> "centre", pad |-> "circular", dx |-> 0, x |-> FALSE]
  IN /\ LET d == [k |-> "default", o |-> o, cls |-> cls, r |-> r, peaks |-> np, act |-> act, ext |-> ch[1], int |-> ch[2],
                    thr |-> thr, pad |-> pad, seed |-> sd] IN
        IF OpsName = "C05" /\ Len(hist) + 4 <= Depth     \* given a vector, and straight through a file
        THEN \E v \in {VecOf(c)} : \E f \in {R(1..2)} : \E o2 \in {R(1..3)} : \E how \in {R({"ctor", "new"})} :
               /\ hist' = hist \o <<d, [k |-> "params", o |-> o, v |-> v], [k |-> "save", o |-> o, f |-> f],
                             [k |-> "restore", o |-> o2, f |-> f, cls |-> cls, how |-> IF cls = "RxnDfn" THEN "new" ELSE how]>>
               /\ files' = [files EXCEPT ![f] = c]
               /\ cas' = [cas EXCEPT ![o] = c, ![o2] = c]
        ELSE Log(d) /\ cas' = [cas EXCEPT ![o] = c] /\ UNCHANGED files

\* two default-built automata that differ in their first radius, brought to the
\* same settings by different ways: their behaviour must agree.  They are not
\* the generator's to reconfigure further.
SetsOf(o, s, v, r, d) == CASE s = "params" -> [k |-> "params", o |-> o, v |-> v]
                           [] s = "radius" -> [k |-> "radius", o |-> o, v |-> r]
                           [] s = "dt" -> [k |-> "dt", o |-> o, v |-> d]
                           [] OTHER -> [k |-> s, o |-> o]
Same == \E cls \in {R({"CCA", "NCA", "Lenia"})} : \E o \in {R(1..3)} : \E o2 \in {R((1..3) \ {o})} :
        \E r1 \in {R(1..4)} : \E r2 \in {R(1..4)} : \E r3 \in {R(1..4)} : \E np \in {R(1..3)} : \E d1 \in {R(DtSet)} : \E d2 \in {R(DtSet)} :
        \E thr \in {R(0..3)} : \E sd \in {R(1..100000)} : \E pad \in {R({"circular", "circular", "zeros", "reflect"})} :
        \E act \in {R({"Tanh", "Gaussian", "ReLU", "Sigmoid"})} :
        \E ch \in {R({<<1, 1>>, <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<4, 4>>, <<2, 4>>})} :
        \E mid \in {R({<<>>, <<"step">>, <<"dt">>, <<"radius">>, <<"params", "step">>, <<"radius", "reset">>, <<"roundtrip">>})} :
        \E fin \in {R({<<"params", "radius", "dt">>, <<"radius", "params", "dt">>, <<"dt", "radius", "params">>, <<"params", "dt", "radius">>})} :
  LET Fns == Fn("GaussianMixture", 2 * ch[2], FALSE)
      c == [cls |-> cls, gen |-> IF cls = "NCA" THEN Fn("Weights", 4 * ch[2] + 4 + 2 * ch[1] + (IF act = "Gaussian" THEN 4 ELSE 0), FALSE) ELSE Fns,
            per |-> IF cls = "NCA" THEN [name |-> "none", mode |-> 0, p |-> <<>>, q |-> <<>>] ELSE Fns,
            ker |-> Ker("GaussianMixture", 3 * np, FALSE), x |-> FALSE]
      D(p, r) == [k |-> "default", o |-> p, cls |-> cls, r |-> r, peaks |-> np, act |-> act, ext |-> ch[1], int |-> ch[2],
                  thr |-> thr, pad |-> pad, seed |-> sd]
  IN \E v \in {VecOf(c)} : \E w \in {VecOf(c)} :
     LET new == <<D(o, r1)>> \o [i \in 1..Len(mid) |-> SetsOf(o, mid[i], w, r3, d2)]
                 \o [i \in 1..3 |-> SetsOf(o, fin[i], v, r2, d1)]
                 \o <<D(o2, r2), SetsOf(o2, "params", v, r2, d1), SetsOf(o2, "dt", v, r2, d1)>>
     IN /\ Len(hist) + Len(new) <= Depth
        /\ hist' = hist \o new
        /\ cas' = [cas EXCEPT ![o] = None, ![o2] = None]
        /\ UNCHANGED files

\* a configuration file somebody wrote, an automaton built from it, saved under
\* the same name, and restored again
Written == \E o \in {R(1..3)} : \E o2 \in {R(1..3)} : \E f \in {R(1..2)} : \E c0 \in {AnyConf(hist)} : \E m \in {R(0..2)} :
           \E how \in {R({"ctor", "ctor", "new"})} : \E how2 \in {R({"ctor", "new"})} :
  LET c == TLCEval([c0 EXCEPT !.pad = "circular"])
      Rest(p, h) == [k |-> "restore", o |-> p, f |-> f, cls |-> c.cls, how |-> IF c.cls = "RxnDfn" THEN "new" ELSE h]
  IN \E v \in {VecOf(c)} :
     LET new == <<[k |-> "write", o |-> 0, f |-> f, c |-> c], Rest(o, how)>>
                 \o (IF m = 0 THEN <<>> ELSE <<[k |-> "params", o |-> o, v |-> v]>>)
                 \o (IF m = 2 THEN <<>> ELSE <<[k |-> "save", o |-> o, f |-> f], Rest(o2, how2)>>)
         d == IF m = 0 THEN c ELSE WithParams(c, v)
     IN /\ Len(hist) + Len(new) <= Depth
        /\ hist' = hist \o new
        /\ cas' = IF m = 2 THEN [cas EXCEPT ![o] = d] ELSE [cas EXCEPT ![o] = d, ![o2] = d]
        /\ files' = [files EXCEPT ![f] = IF m = 2 THEN None ELSE d]

Ops ==
  \/ Build
  \/ SetParams
  \/ RoundTrip
  \/ (OpsName \in {"C04"} /\ (Twin \/ Default))
  \/ (OpsName \in {"C04"} /\ SetParams)
  \/ (OpsName \in {"C05", "C06"} /\ SetDt)
  \/ SetRadius
  \/ SetKernel
  \/ (OpsName = "C06" /\ Load)
  \/ Step
  \/ (OpsName # "C04" /\ Reset)
  \/ (OpsName \in {"C06"} /\ (Ref \/ Same))
  \/ (OpsName = "C05" /\ (Save \/ Restore \/ Default \/ Written))

Next == \/ /\ ~done /\ Len(hist) < Depth /\ Ops /\ UNCHANGED done
        \/ /\ ~done /\ Len(hist) = Depth
           /\ PrintT("SCENARIO|" \o ToJson(hist))
           /\ done' = TRUE /\ UNCHANGED <<cas, files, hist>>

Spec == Init /\ [][Next]_vars

\* vectors fit the configurations they are written to, and are read back
VectorsFit == \A o \in Live : WithParams(cas[o], Params(cas[o])) = cas[o]
=============================================================================
