------------------------------- MODULE FnTrace -------------------------------
(* Recorded evaluations of the growth functions against YucaProfiles.         *)
(* An "eval" event holds inputs xs, results ys (over F), the tolerance and    *)
(* whether shape, dtype, device and the argument itself were kept.            *)
EXTENDS YucaProfiles, TraceBase

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = {}

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)

\* whole-array Laplacian profile: minus its mean, over its absolute sum
LogFails(e) ==
  LET n == Len(e.xs)
      p == TLCEval([i \in 1..n |-> LogRaw(e.sigma, e.xs[i])])
      m == RDiv(SumTo(p, n), n)
      a == TLCEval(SumTo([i \in 1..n |-> FAbs(p[i] - m)], n))
  IN Fail("value", \A i \in 1..n : FAbs(((p[i] - m) * 4096) \div (a \div 16) - 4 * e.ys[i]) <= 4 * e.tol) \cup
     Fail("sum", FAbs(SumTo(e.ys, n)) <= n)

Fails(e) ==
  CASE e.k = "eval" ->
         Fail("value", \A i \in 1..Len(e.xs) : FAbs(Value(T.f, e.xs[i]) - e.ys[i]) <= e.tol) \cup
         Fail("shape", e.shape = e.got) \cup Fail("dtype", e.dtype) \cup
         Fail("device", e.device) \cup Fail("input-mutated", e.pure)
    [] e.k = "meta" ->
         Fail("value", \A i \in 1..Len(e.xs) :
            FAbs((LET g == Bmp(e.xs[i][1], e.xs[i][2], e.xs[i][3]) IN IF e.mode = 0 THEN g ELSE 2 * g - F) - e.ys[i]) <= e.tol) \cup
         Fail("shape", e.got = e.shape)
    [] e.k = "log" -> LogFails(e) \cup Fail("shape", e.shape = e.got) \cup Fail("input-mutated", e.pure)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l>>
           ELSE l' = l + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
