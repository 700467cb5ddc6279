----------------------------- MODULE CALawsTrace -----------------------------
(* The laws every automaton obeys, checked on recorded histories.            *)
(* State: the grid the automaton will step next, what the last real step of  *)
(* it returned (base), an outstanding preview, the clock and the time step.  *)
(* Cells and times are numerators over 2^16.                                 *)
(*  put      choose a grid                                                   *)
(*  dt       set the time step, v; got is what the automaton reports         *)
(*  reset    reset the clock                                                 *)
(*  frame    preview: no clock change, remembered                            *)
(*  step     a step; used is the time step taken (own choice of variants)    *)
(*  same / shift / solo / swap   steps of a derived grid: repeated, rotated  *)
(*           by (dy, dx), member b alone, batch reversed                     *)
EXTENDS YucaGrid, TraceBase

ONE == 65536
VARIABLES tid, l, grid, base, preview, clock, dt, verdict
vars == <<tid, l, grid, base, preview, clock, dt, verdict>>
T == Traces[tid]

None == <<>>

NearU(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A n \in 1..Len(a) : /\ Len(a[n]) = Len(b[n])
                                            /\ \A c \in 1..Len(a[n]) : Near(a[n][c], b[n][c], tol)
SameShape(a, b) == /\ Len(a) = Len(b)
                   /\ \A n \in 1..Len(a) : /\ Len(a[n]) = Len(b[n])
                        /\ \A c \in 1..Len(a[n]) : /\ Len(a[n][c]) = Len(b[n][c])
                             /\ \A y \in 1..Len(a[n][c]) : Len(a[n][c][y]) = Len(b[n][c][y])
Bounded(a) == \A n \in 1..Len(a) : \A c \in 1..Len(a[n]) : \A y \in 1..Len(a[n][c]) :
                 \A x \in 1..Len(a[n][c][y]) : a[n][c][y][x] \in 0..ONE
ShiftU(a, dy, dx) == [n \in 1..Len(a) |-> [c \in 1..Len(a[n]) |-> Shift(a[n][c], dy, dx)]]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ verdict = {}
        /\ grid = None /\ base = None /\ preview = None /\ clock = 0 /\ dt = 0

Step0(e) == Fail("shape", SameShape(e.y, grid)) \cup Fail("bounded", Bounded(e.y)) \cup
            Fail("input-mutated", e.pure)
Advance(e) == IF T.clockdt = "set" THEN clock + dt ELSE clock + e.used
Ticks(e)  == IF T.clockdt = "none" THEN {} ELSE Fail("clock", Abs(e.t - Advance(e)) <= T.ttol)

Fails(e) ==
  CASE e.k = "put" -> {}
    [] e.k = "new" -> Fail("clock-starts-at-zero", e.t = 0)
    [] e.k = "reset" -> Fail("reset-clock", e.t = 0)
    [] e.k = "dt" -> Fail("reported-dt", e.got = e.v) \cup Fail("clock", e.t = clock)
    [] e.k = "frame" -> Step0(e) \cup Fail("preview-advances-clock", Abs(e.t - clock) <= T.ttol)
    [] e.k = "step" -> Step0(e) \cup Ticks(e) \cup
         Fail("preview-differs", preview = None \/ NearU(preview, e.y, T.tol))
    [] e.k = "same" -> Ticks(e) \cup Fail("not-reproducible", NearU(e.y, base, T.tol))
    [] e.k = "shift" -> Ticks(e) \cup Fail("not-translation-invariant", NearU(e.y, ShiftU(base, e.dy, e.dx), T.tol))
    [] e.k = "solo" -> Ticks(e) \cup Fail("batch-members-interact", NearU(e.y, <<base[e.b]>>, T.tol))
    [] e.k = "swap" -> Ticks(e) \cup Fail("batch-order", NearU(e.y, [n \in 1..Len(base) |-> base[Len(base) + 1 - n]], T.tol))
    [] OTHER -> {"unknown-event"}

Moves(e) == e.k \in {"step", "same", "shift", "solo", "swap"}

Next ==
  /\ verdict = {} /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF e.ok THEN Fails(e) ELSE {"raised: " \o e.exc}
     IN /\ verdict' = f
        /\ UNCHANGED tid
        /\ IF f # {} THEN Report(T.id, l, e.k, f) /\ UNCHANGED <<l, grid, base, preview, clock, dt>>
           ELSE /\ l' = l + 1
                /\ grid' = IF e.k = "put" THEN e.x ELSE grid
                /\ base' = IF e.k = "step" THEN e.y ELSE IF e.k = "put" THEN None ELSE base
                /\ preview' = IF e.k = "frame" THEN e.y ELSE IF e.k = "put" THEN None ELSE preview
                /\ clock' = IF Moves(e) /\ T.clockdt # "none" THEN Advance(e) ELSE IF e.k = "reset" THEN 0 ELSE clock
                /\ dt' = IF e.k = "dt" THEN e.v ELSE dt
Spec == Init /\ [][Next]_vars
ClockNonNegative == clock >= 0
=============================================================================
