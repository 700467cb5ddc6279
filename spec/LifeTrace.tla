------------------------------ MODULE LifeTrace ------------------------------
(* Recorded Life-like CA runs: "put" starts from a grid, "run" is n steps of *)
(* the real automaton, out its cells (a non-binary cell is recorded as 2^30).*)
EXTENDS YucaLife, TraceBase

VARIABLES tid, l, grid, verdict
vars == <<tid, l, grid, verdict>>
T == Traces[tid]
B == {T.b[i] : i \in 1..Len(T.b)}
S == {T.s[i] : i \in 1..Len(T.s)}

RECURSIVE Iter(_, _)
Iter(g, n) == IF n = 0 THEN g ELSE Iter(TLCEval(LifeNext(g, B, S)), n - 1)

Binary(g) == \A y \in 1..Len(g) : \A x \in 1..Len(g[y]) : g[y][x] \in {0, 1}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ grid = <<>> /\ verdict = {}

Next ==
  /\ verdict = {} /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     IF ~e.ok THEN /\ verdict' = {"raised: " \o e.exc} /\ Report(T.id, l, e.k, verdict')
                   /\ UNCHANGED <<tid, l, grid>>
     ELSE IF e.k = "put" THEN grid' = e.g /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
     ELSE LET nxt == TLCEval(Iter(grid, e.n))
              f == Fail("not-binary", Binary(e.out)) \cup Fail("life-rule", e.out = nxt)
          IN /\ verdict' = f
             /\ IF f = {} THEN l' = l + 1 /\ grid' = nxt
                ELSE Report(T.id, l, e.k, f) /\ UNCHANGED <<l, grid>>
             /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
TypeOK == Binary(grid)
=============================================================================
