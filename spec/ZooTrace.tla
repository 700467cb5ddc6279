------------------------------ MODULE ZooTrace ------------------------------
(* Recorded histories of the real librarian against YucaZoo.  A content is    *)
(* the array (values, type and shape, as an id) with its four metadata texts. *)
EXTENDS YucaZoo, TraceBase

VARIABLES tid, l, zoo, verdict
vars == <<tid, l, zoo, verdict>>
T == Traces[tid]
Range(s) == {s[i] : i \in DOMAIN s}
Shelf(e) == {[name |-> x.name, content |-> x.content] : x \in Range(e.entries)}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ zoo = {}
        /\ verdict = {}

\* contents are ids of what the files hold; a store must leave what was asked
Fails(e) ==
  CASE e.k = "open" -> Fail("empty", Shelf(e) = {})
    [] e.k = "shipped" -> {}
    [] e.k = "store" ->
         Fail("nothing-lost", zoo \subseteq Shelf(e)) \cup
         Fail("one-new-entry", Cardinality(Shelf(e)) = Cardinality(zoo) + 1
                               /\ \A x \in Shelf(e) \ zoo : EntryOf(e.base, x.name) /\ x.name \notin Names(zoo)) \cup
         Fail("as-given", \A x \in Shelf(e) \ zoo : x.content = e.content) \cup
         Fail("pattern-untouched", e.same)
    [] e.k = "load" ->
         Fail("loads-what-was-stored", e.name \in Names(zoo) => e.content = Entry(zoo, e.name).content) \cup
         Fail("nothing-lost", Shelf(e) = zoo)
    [] e.k = "index" -> Fail("index", IndexOk(zoo, e.index)) \cup Fail("nothing-lost", Shelf(e) = zoo)
    [] e.k = "stranger" -> Fail("nothing-lost", Shelf(e) = zoo)
    [] e.k = "crop" ->
         Fail("crop", Len(e.got) = Len(e.pages) /\ \A p \in DOMAIN e.pages :
                LET want == Crop(e.pages[p], e.a, e.b, e.c, e.d) IN
                IF want = <<>> \/ want[1] = <<>> THEN e.empty ELSE e.got[p] = want) \cup
         Fail("pattern-untouched", e.same)
    [] e.k = "legacy" -> Fail("legacy", e.content = e.want)
    [] OTHER -> {"unknown-event"}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc} ELSE TLCEval(Fails(e))
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l, zoo>>
           ELSE /\ l' = l + 1
                /\ UNCHANGED tid
                /\ zoo' = IF e.k \in {"store", "shipped"} THEN Shelf(e) ELSE zoo

Spec == Init /\ [][Next]_vars
=============================================================================
