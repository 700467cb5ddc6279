------------------------------ MODULE YucaZoo -------------------------------
(* The pattern zoo: a directory of numbered entries.  A name is a sequence of *)
(* character codes; entry n of a base name is the name followed by at least   *)
(* three digits.                                                              *)
EXTENDS Integers, Sequences, FiniteSets

Digits == 48..57
IsNumber(s) == Len(s) >= 3 /\ \A i \in DOMAIN s : s[i] \in Digits
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EntryOf(base, name) == IsPrefix(base, name) /\ IsNumber(SubSeq(name, Len(base) + 1, Len(name)))

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pad(n) == LET d == Dec(n) IN IF Len(d) >= 3 THEN d ELSE IF Len(d) = 2 THEN <<48>> \o d ELSE <<48, 48>> \o d

Names(zoo) == {e.name : e \in zoo}
Entry(zoo, name) == CHOOSE e \in zoo : e.name = name

\* the entry a store makes: the first free number of its base name
RECURSIVE FirstFree(_, _, _)
FirstFree(zoo, base, n) == IF base \o Pad(n) \in Names(zoo) THEN FirstFree(zoo, base, n + 1) ELSE n
Stored(zoo, base, content) == zoo \cup {[name |-> base \o Pad(FirstFree(zoo, base, 0)), content |-> content]}

\* what must hold between a zoo and the zoo after storing once
StoreOk(zoo, zoo2, base, content) ==
  /\ zoo \subseteq zoo2                                   \* nothing lost or altered
  /\ Cardinality(zoo2) = Cardinality(zoo) + 1
  /\ \A e \in zoo2 \ zoo : EntryOf(base, e.name) /\ e.name \notin Names(zoo) /\ e.content = content

\* lexicographic order
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
IndexOk(zoo, idx) ==
  /\ {idx[i] : i \in DOMAIN idx} = Names(zoo)
  /\ Len(idx) = Cardinality(zoo)
  /\ \A i \in 1..(Len(idx) - 1) : Less(idx[i], idx[i + 1])

\* rows a..b-1, columns c..d-1 (from 0) of every page
Min(a, b) == IF a < b THEN a ELSE b
Crop(page, a, b, c, d) ==
  [i \in 1..(IF Min(b, Len(page)) > a THEN Min(b, Len(page)) - a ELSE 0) |->
    [j \in 1..(IF Min(d, Len(page[1])) > c THEN Min(d, Len(page[1])) - c ELSE 0) |-> page[a + i][c + j]]]
=============================================================================
