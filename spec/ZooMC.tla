------------------------------- MODULE ZooMC --------------------------------
(* Every history of stores under names that are prefixes of one another:      *)
(* numbering never loses, overwrites or misfiles an entry.                    *)
EXTENDS YucaZoo
CONSTANT MaxStores
Bases == {<<97>>, <<97, 48>>, <<97, 48, 48>>, <<98>>, <<>>}
Contents == 1..2
VARIABLES zoo, last
vars == <<zoo, last>>
Init == zoo = {} /\ last = <<>>
Store == /\ Cardinality(zoo) < MaxStores
         /\ \E b \in Bases, c \in Contents : /\ zoo' = Stored(zoo, b, c)
                                            /\ last' = <<b, c>>
Next == Store
Spec == Init /\ [][Next]_vars
Unique == Cardinality(Names(zoo)) = Cardinality(zoo)
StoresOk == [][StoreOk(zoo, zoo', last'[1], last'[2])]_vars
=============================================================================
