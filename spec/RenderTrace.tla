----------------------------- MODULE RenderTrace ----------------------------
(* Recorded renderings against YucaRender.  State: the files around the       *)
(* frames and in the animation folder, and the automaton's clock.             *)
EXTENDS YucaRender, TraceBase

VARIABLES tid, l, disk, clock, verdict
vars == <<tid, l, disk, clock, verdict>>
T == Traces[tid]
Range(s) == {s[i] : i \in DOMAIN s}
Disk(e) == {[dir |-> x.dir, name |-> x.name, id |-> x.id] : x \in Range(e.files)}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ disk = {}
        /\ clock = 0
        /\ verdict = {}

Render(e) ==
  LET want == Frames(e.states, e.speed, e.n, 1, e.eps)
      new == {x \in Disk(e) : x.dir = "gifs"} \ disk
      f(img, st, tol) == FrameOk(img, st, e.S, T.table, e.invert, e.slack, tol)
  IN Fail("nothing-else-touched", disk \subseteq Disk(e)) \cup
     Fail("cleans-up", {x \in Disk(e) \ disk : x.dir # "gifs"} = {} /\ e.framesleft = 0) \cup
     Fail("one-animation", Cardinality(new) = (IF want = <<>> THEN 0 ELSE 1)) \cup
     Fail("clock-kept", e.clock = clock) \cup
     Fail("grid-kept", e.same) \cup
     Fail("stays-in-place", e.escapes = 0) \cup
     (IF want = <<>> THEN {} ELSE
      Fail("frame-count", Len(e.gif) = Len(want)) \cup
      (IF Len(e.gif) # Len(want) \/ ~e.exact THEN {}
       ELSE Fail("frames", \A k \in DOMAIN want : f(e.gif[k], want[k], IF e.slack = 0 THEN 4 ELSE 32)))) \cup
     \* (a palette of 256 colours cannot show every shade)
     \* the images the animation is made of, where they could be seen
     (IF e.png = <<>> THEN {} ELSE
      Fail("images", Len(e.png) = Len(want) /\ \A k \in DOMAIN want : f(e.png[k], want[k], IF e.slack = 0 THEN 0 ELSE 1)))

Fails(e) ==
  CASE e.k = "open" -> {}
    [] e.k = "render" -> Render(e)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, disk, clock>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ disk' = Disk(e)
                /\ clock' = e.clock

Spec == Init /\ [][Next]_vars
=============================================================================
