------------------------------- MODULE FrontMC -------------------------------
(* The front end as a program, one step per decision, over every combination   *)
(* of names; several requests may follow each other in one process, so the     *)
(* precision a run sees is the one left by its own request only.               *)
EXTENDS YucaFront, Json

Tags == {"", "pattern_search", "my_pattern_2", "coevo", "coevolution_test", "halting", "ca_search", "patter", "coev",
         "pattern_coevo", "coevo_patterns", "Pattern", "no-tag"}
CAs == Automata \cup {"", "FooCA", "cca", "Life", "CA"}
Envs == RuleEnvs \cup {"GliderWrapper", "", "haltingwrapper", "Wrapper", "FooWrapper"}
Dtypes == {"float32", "float64", "torch.float64", "torch.float32"}
Requests == [tag : Tags, ca : CAs, env : Envs, dtype : Dtypes]

VARIABLES r, pc, precision, env, algorithm, ca, n
vars == <<r, pc, precision, env, algorithm, ca, n>>
CONSTANT Runs

Init == /\ r \in Requests /\ pc = "precision" /\ precision = "float32" /\ env = "" /\ algorithm = "" /\ ca = "" /\ n = 1
SetPrecision == pc = "precision" /\ precision' = Precision(r.dtype) /\ pc' = "route" /\ UNCHANGED <<r, env, algorithm, ca, n>>
Route == /\ pc = "route"
         /\ algorithm' = Algorithm(r)
         /\ env' = (IF Mode(r.tag) = "rule" THEN "" ELSE "GliderWrapper")
         /\ pc' = "env" /\ UNCHANGED <<r, precision, ca, n>>
ResolveEnv == /\ pc = "env"
              /\ IF env # "" THEN pc' = "ca" /\ UNCHANGED env
                 ELSE IF r.env \in RuleEnvs THEN env' = r.env /\ pc' = "ca" ELSE pc' = "refused" /\ UNCHANGED env
              /\ UNCHANGED <<r, precision, algorithm, ca, n>>
ResolveCA == /\ pc = "ca"
             /\ IF r.ca \in Automata THEN ca' = r.ca /\ pc' = "running" ELSE pc' = "refused" /\ UNCHANGED ca
             /\ UNCHANGED <<r, precision, env, algorithm, n>>
Again == /\ pc \in {"refused", "running"} /\ n < Runs
         /\ r' \in [tag : {"pattern_search", "halting"}, ca : {"CCA", "Life"}, env : {"HaltingWrapper", ""}, dtype : Dtypes]
         /\ pc' = "precision" /\ env' = "" /\ algorithm' = "" /\ ca' = "" /\ n' = n + 1 /\ UNCHANGED precision
Next == SetPrecision \/ Route \/ ResolveEnv \/ ResolveCA \/ Again
Spec == Init /\ [][Next]_vars

Agrees == /\ (pc = "running" => /\ Outcome(r).start
                                /\ Outcome(r).ca = ca /\ Outcome(r).env = env /\ Outcome(r).algorithm = algorithm
                                /\ Outcome(r).precision = precision)
          /\ (pc = "refused" => ~Outcome(r).start)
\* nothing unknown ever runs, and the agent fits the algorithm
Sound == pc = "running" => /\ ca \in Automata
                           /\ env \in RuleEnvs \cup {"GliderWrapper"}
                           /\ (env = "GliderWrapper" <=> Mode(r.tag) # "rule")
                           /\ (algorithm = "CMACES" <=> Agent(r) = "CPPNPlus")
=============================================================================
