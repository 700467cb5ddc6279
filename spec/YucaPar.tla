------------------------------ MODULE YucaPar -------------------------------
(* The mantle and its arms: rank 0 sends every arm its share of the           *)
(* population, each arm evaluates its share one individual at a time and      *)
(* sends the fitness back, rank 0 collects in rank order, and after the last  *)
(* round tells every arm to stop.  Channels are FIFO per direction; with      *)
(* Sync a send completes only when it is received (MPI's rendezvous mode).    *)
(* Model checked over every interleaving (ParMC), used to generate schedules  *)
(* for the real code (ParGen).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxArms, MaxPop, MaxRounds

VARIABLES arms, pop, rounds, sync,           \* configuration
          mpc, at, round, fitness,           \* rank 0
          down, up,                          \* channels
          apc, todo, res,                    \* arms
          count                              \* evaluations this round
cfgv == <<arms, pop, rounds, sync>>
vars == <<arms, pop, rounds, sync, mpc, at, round, fitness, down, up, apc, todo, res, count>>

\* the shares: contiguous, in order, near equal
Share(n, w, a) ==      \* places of arm a of w in a population of n
  LET base == n \div w  more == n % w
      start == (a - 1) * base + (IF a - 1 < more THEN a - 1 ELSE more)
      size == base + (IF a <= more THEN 1 ELSE 0)
  IN [i \in 1..size |-> start + i]

Init == /\ arms \in 1..MaxArms /\ pop \in 1..MaxPop /\ rounds \in 1..MaxRounds /\ sync \in BOOLEAN
        /\ mpc = "send" /\ at = 1 /\ round = 1 /\ fitness = <<>>
        /\ down = [a \in 1..arms |-> <<>>] /\ up = [a \in 1..arms |-> <<>>]
        /\ apc = [a \in 1..arms |-> "wait"] /\ todo = [a \in 1..arms |-> <<>>] /\ res = [a \in 1..arms |-> <<>>]
        /\ count = [i \in 1..pop |-> 0]

Stop == <<0>>
Arms == 1..arms
\* a rendezvous send needs the receiver waiting; a buffered one does not
CanSend(a) == ~sync \/ (apc[a] = "wait" /\ down[a] = <<>>)

MSend ==
  /\ mpc = "send" /\ at <= arms /\ CanSend(at)
  /\ down' = [down EXCEPT ![at] = Append(@, <<round>> \o Share(pop, arms, at))]
  /\ at' = at + 1
  /\ UNCHANGED <<cfgv, mpc, round, fitness, up, apc, todo, res, count>>
MTurn ==
  /\ mpc = "send" /\ at > arms
  /\ mpc' = "recv" /\ at' = 1 /\ fitness' = <<>>
  /\ UNCHANGED <<cfgv, round, down, up, apc, todo, res, count>>
MRecv ==
  /\ mpc = "recv" /\ at <= arms /\ up[at] # <<>>
  /\ fitness' = fitness \o Head(up[at])
  /\ up' = [up EXCEPT ![at] = Tail(@)]
  /\ at' = at + 1
  /\ UNCHANGED <<cfgv, mpc, round, down, apc, todo, res, count>>
MCollect ==
  /\ mpc = "recv" /\ at > arms
  /\ at' = 1
  /\ IF round = rounds THEN mpc' = "stop" /\ UNCHANGED <<round, count>>
     ELSE mpc' = "send" /\ round' = round + 1 /\ count' = [i \in 1..pop |-> 0]
  /\ UNCHANGED <<cfgv, fitness, down, up, apc, todo, res>>
MStop ==
  /\ mpc = "stop" /\ at <= arms /\ CanSend(at)
  /\ down' = [down EXCEPT ![at] = Append(@, Stop)]
  /\ at' = at + 1
  /\ mpc' = IF at = arms THEN "done" ELSE "stop"
  /\ UNCHANGED <<cfgv, round, fitness, up, apc, todo, res, count>>

ARecv(a) ==
  /\ apc[a] = "wait" /\ down[a] # <<>>
  /\ down' = [down EXCEPT ![a] = Tail(@)]
  /\ IF Head(down[a]) = Stop THEN apc' = [apc EXCEPT ![a] = "done"] /\ UNCHANGED <<todo, res>>
     ELSE /\ apc' = [apc EXCEPT ![a] = "work"]
          /\ todo' = [todo EXCEPT ![a] = Tail(Head(down[a]))]
          /\ res' = [res EXCEPT ![a] = <<>>]
  /\ UNCHANGED <<cfgv, mpc, at, round, fitness, up, count>>
AEval(a) ==
  /\ apc[a] = "work" /\ todo[a] # <<>>
  /\ count' = [count EXCEPT ![Head(todo[a])] = @ + 1]
  /\ res' = [res EXCEPT ![a] = Append(@, <<round, Head(todo[a])>>)]
  /\ todo' = [todo EXCEPT ![a] = Tail(@)]
  /\ UNCHANGED <<cfgv, mpc, at, round, fitness, down, up, apc>>
ASend(a) ==
  /\ apc[a] = "work" /\ todo[a] = <<>>
  /\ ~sync \/ (mpc = "recv" /\ at = a)
  /\ up' = [up EXCEPT ![a] = Append(@, res[a])]
  /\ apc' = [apc EXCEPT ![a] = "wait"]
  /\ UNCHANGED <<cfgv, mpc, at, round, fitness, down, todo, res, count>>

Mantle == MSend \/ MTurn \/ MRecv \/ MCollect \/ MStop
Arm(a) == ARecv(a) \/ AEval(a) \/ ASend(a)
Over == mpc = "done" /\ \A a \in Arms : apc[a] = "done"
SomeRecv == \E a \in Arms : ARecv(a)
SomeEval == \E a \in Arms : AEval(a)
SomeSend == \E a \in Arms : ASend(a)
Next == Mantle \/ SomeRecv \/ SomeEval \/ SomeSend \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Mantle) /\ WF_vars(\E a \in Arms : Arm(a))

-----------------------------------------------------------------------------
\* every individual once, with this round's parameters, at its own place
Collected == mpc = "recv" /\ at > arms
OnceEach == Collected => \A i \in 1..pop : count[i] = 1
OwnFitness == Collected => fitness = [i \in 1..pop |-> <<round, i>>]
NearEqual == \A a \in Arms : \A b \in Arms : Len(Share(pop, arms, a)) <= Len(Share(pop, arms, b)) + 1
NothingUnread == Over => \A a \in Arms : down[a] = <<>> /\ up[a] = <<>>
Ends == <>Over
=============================================================================
