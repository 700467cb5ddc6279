------------------------------ MODULE YucaFront ------------------------------
(* The command front end: a request (tag, automaton, environment, precision,  *)
(* further options) either starts exactly one search or is refused.  The       *)
(* state machine (precision, route, environment, automaton, start) is checked  *)
(* by FrontMC; Outcome(r) is what it must come to, used on recorded runs.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Automata == {"CCA", "NCA", "RxnDfn", "CODE", "Lenia", "RandomStepCA", "MetaCA"}
RuleEnvs == {"SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper"}

\* s contains t
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

Mode(tag) == IF Contains(tag, "pattern") THEN "pattern" ELSE IF Contains(tag, "coevo") THEN "coevo" ELSE "rule"
Precision(dtype) == IF Contains(dtype, "float64") THEN "float64" ELSE "float32"

\* a request: [tag, ca, env, dtype]
Env(r) == IF Mode(r.tag) = "rule" THEN r.env ELSE "GliderWrapper"
Refused(r) == r.ca \notin Automata \/ (Mode(r.tag) = "rule" /\ r.env \notin RuleEnvs)
Algorithm(r) == IF Mode(r.tag) = "coevo" THEN "CMACES" ELSE "CMAES"
Agent(r) == CASE Mode(r.tag) = "pattern" -> "CPPN" [] Mode(r.tag) = "coevo" -> "CPPNPlus" [] OTHER -> "ParamsAgent"
Outcome(r) ==
  IF Refused(r) THEN [start |-> FALSE, algorithm |-> "", agent |-> "", env |-> "", ca |-> "", precision |-> Precision(r.dtype)]
  ELSE [start |-> TRUE, algorithm |-> Algorithm(r), agent |-> Agent(r), env |-> Env(r), ca |-> r.ca, precision |-> Precision(r.dtype)]

(* ---- the options that must arrive: given, got are functions name -> value token ---- *)
Touched(r) == {"ca_fn", "env_fn", "agent_fn"} \cup (IF r.ca = "RxnDfn" THEN {"external_channels"} ELSE {})
\* options the front end may add by itself
Added(r) == {"ca_fn", "env_fn", "agent_fn"} \cup (IF r.ca = "RxnDfn" THEN {"external_channels"} ELSE {})
            \cup (IF r.ca = "NCA" THEN {"hidden_channels"} ELSE {})
Lost(r, given, got) == {n \in DOMAIN given \ Touched(r) : n \notin DOMAIN got \/ got[n] # given[n]}
Invented(r, given, got) == DOMAIN got \ (DOMAIN given \cup Added(r))
=============================================================================
