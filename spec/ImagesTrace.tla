----------------------------- MODULE ImagesTrace -----------------------------
(* Recorded masks, batches and random draws of the real code.                  *)
EXTENDS YucaImages, TraceBase

VARIABLES tid, l, known, cur, verdict
vars == <<tid, l, known, cur, verdict>>
T == Traces[tid]
\* known: what each (seed, list of draws since) gave
Init == tid \in 1..Len(Traces) /\ l = 1 /\ known = <<>> /\ cur = [seed |-> -1, n |-> 0] /\ verdict = {}

\* e.rows: the judged rows of the image; e.cells[c][r][j]
DiscFails(e, ok(_, _, _)) ==
  LET reach == Reach(e.rad, e.h) IN
  Fail("disc", \A r \in 1..Len(e.rows) : \A j \in 1..e.w :
                 ok(e.cells[1][r][j], Dist2(e.rows[r], j, e.h, e.w, e.cx, e.cy), reach)) \cup
  Fail("all-channels-alike", \A c \in 1..Len(e.cells) : e.cells[c] = e.cells[1]) \cup
  Fail("mask-shape", e.dims = <<1, e.ch, e.h, e.w>>)

\* a prepared sample: kept[i][j] = the image's value was let through
SampleFails(e, s) ==
  LET keep == e.kept[s] reach == Reach(e.bite, e.h) hole == Reach(e.aperture, e.h) IN
  Fail("aperture", \A i \in 1..e.h, j \in 1..e.w :
        (~Full(e.aperture) /\ Outside(Dist2(i, j, e.h, e.w, 0, 0), hole)) => keep[i][j] = 0) \cup
  \* some centre (to a quarter of a cell) explains what else is missing
  Fail("bite-is-a-disc",
       \E cx \in {x \in -16..(e.h * 32 + 16) : x % 16 = 0} : \E cy \in {x \in -16..(e.h * 32 + 16) : x % 16 = 0} :
         \A i \in 1..e.h, j \in 1..e.w :
           LET d2 == Dist2(i, j, e.h, e.w, cx, cy)
               open == Full(e.aperture) \/ Inside(Dist2(i, j, e.h, e.w, 0, 0), hole)
           IN /\ ((reach > 14 /\ d2 < Sq(reach - 14)) => keep[i][j] = 0)
              /\ ((d2 > Sq(reach + 14) /\ open) => keep[i][j] = 1))

Fails(e) ==
  CASE e.k = "mask" ->
         Fail("threshold", \A i \in 1..Len(e.grid) : e.got[i] = IF e.grid[i] < e.rad THEN 0 ELSE 1) \cup
         Fail("argument-unchanged", e.pure) \cup Fail("mask-shape", e.shape)
    [] e.k = "bite" -> DiscFails(e, BiteOk) \cup Fail("argument-unchanged", e.pure)
    [] e.k = "aperture" ->
         (IF Full(e.rad) THEN Fail("full-aperture", \A c \in 1..Len(e.cells), r \in 1..Len(e.rows), j \in 1..e.w : e.cells[c][r][j] = 1) \cup
                              Fail("mask-shape", e.dims = <<1, e.ch, e.h, e.w>>)
          ELSE DiscFails(e, ApertureOk)) \cup Fail("argument-unchanged", e.pure)
    [] e.k = "batch" ->
         Fail("batch-shape", e.dims = <<e.samples, e.channels, e.h, e.w>>) \cup
         Fail("values", e.clean) \cup
         Fail("noise-range", e.noiselow >= 0 /\ e.noisehigh <= e.level) \cup
         Fail("noise-drawn", e.level > 0 => e.noises) \cup
         Fail("noise-everywhere", e.level > 0 => e.silent * 20 <= e.cells + 20) \cup
         Fail("extra-channels-empty", e.extra = 0) \cup
         Fail("channels-alike", e.alike) \cup
         Fail("argument-unchanged", e.pure) \cup
         UNION {SampleFails(e, s) : s \in 1..Len(e.kept)} \cup
         Fail("bites-differ", ~Full(e.aperture) \/ Len(e.kept) < 5 \/ e.bite < 250 \/ e.bite > 600 \/ Cardinality({e.kept[s] : s \in 1..Len(e.kept)}) > 1)
    [] e.k = "bites" ->       \* neither on a line nor in one place
         LET At == {e.at[s] : s \in 1..Len(e.at)}  far == e.h * 8 IN
         Fail("bites-spread", /\ \E p \in At : p[1] - p[2] > far
                              /\ \E p \in At : p[2] - p[1] > far
                              /\ \E p, r \in At : p[1] - r[1] > far /\ p[2] - r[2] > far)
    [] e.k = "target" -> Fail("target", e.dims = <<1, e.ch, e.h, e.w>> /\ e.same)
    [] e.k = "seed" -> {}
    [] e.k = "draw" ->
         IF cur.seed = -1 THEN {}
         ELSE Fail("same-seed-same-draws", \A x \in 1..Len(known) : (known[x].seed = cur.seed /\ known[x].n = cur.n /\ known[x].kinds = e.kinds /\ known[x].past = cur.past) => known[x].value = e.value) \cup
              Fail("other-seed-other-draws", \A x \in 1..Len(known) : (known[x].seed # cur.seed /\ known[x].n = 0 /\ cur.n = 0 /\ known[x].kinds = e.kinds) => known[x].value # e.value)
    [] OTHER -> {"unknown-event"}

After(e) ==
  CASE e.k = "seed" -> known' = known /\ cur' = [seed |-> e.s, n |-> 0, past |-> <<>>]
    [] e.k = "draw" ->
         IF cur.seed = -1 THEN UNCHANGED <<known, cur>>
         ELSE /\ known' = Append(known, [seed |-> cur.seed, n |-> cur.n, past |-> cur.past, kinds |-> e.kinds, value |-> e.value])
              /\ cur' = [cur EXCEPT !.n = cur.n + 1, !.past = Append(cur.past, e.kinds)]
    [] OTHER -> UNCHANGED <<known, cur>>

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, known, cur>> ELSE l' = l + 1 /\ After(e) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
