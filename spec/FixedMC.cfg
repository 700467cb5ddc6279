SPECIFICATION Spec
INVARIANT ExpHom
INVARIANT ExpMono
INVARIANT TanhOdd
INVARIANT SigSym
INVARIANT TanhSig
INVARIANT CosDouble
INVARIANT CosRange
INVARIANT BumpSym
INVARIANT BumpPeak
INVARIANT BumpSigma
CHECK_DEADLOCK FALSE
