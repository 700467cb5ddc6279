------------------------------- MODULE LifeMC -------------------------------
(* Design check: the continuous rule of YucaRule, given the interval growth  *)
(* functions a Life-like configuration prescribes, refines YucaLife on every *)
(* binary H x W torus, and both commute with every translation.              *)
EXTENDS YucaLife, YucaRule
CONSTANTS H, W
VARIABLES bs, g
vars == <<bs, g>>

RuleSets == { <<{3}, {2,3}>>, <<{3,6}, {2,3}>>, <<{2}, {}>>, <<{0,4,8}, {1,8}>>, <<{}, 0..8>>,
              <<{1,3,5,7}, {1,3,5,7}>>, <<{3,6,8}, {2,4,5}>> }


Rule(b, s) ==
  [E |-> 1, I |-> 1, pad |-> "circular", SX |-> 1, SI |-> 1, SK |-> 8, SG |-> 1, dtn |-> 1, dtd |-> 1,
   idk |-> << << <<<<0,0,1>>>> >> >>, nbk |-> << << Moore >> >>,
   gen |-> << [k |-> "intervals", s |-> 1, mode |-> 1, t |-> b] >>,
   per |-> << [k |-> "intervals", s |-> 1, mode |-> 1, t |-> s] >>, thr |-> 0, lenia |-> FALSE]

\* neighbourhood scale is SX*SK = 8; interval bounds live at twice that: (2k-1)/16
IntsN(set) == SetToSeq({<<2*k-1, 2*k+1>> : k \in set})

Init == /\ bs \in RuleSets
        /\ g \in [1..H -> [1..W -> {0,1}]]
Next == g' = LifeNext(g, bs[1], bs[2]) /\ UNCHANGED bs
Spec == Init /\ [][Next]_vars

Refines == Step(Rule(IntsN(bs[1]), IntsN(bs[2])), <<g>>) = << LifeNext(g, bs[1], bs[2]) >>
Equivariant == \A dy \in 0..(H-1) : \A dx \in 0..(W-1) :
   (dy <= 1 /\ dx <= 1) => LifeNext(Shift(g, dy, dx), bs[1], bs[2]) = Shift(LifeNext(g, bs[1], bs[2]), dy, dx)
=============================================================================
