------------------------------ MODULE FrontGen -------------------------------
(* Sequences of requests with random further options, for the real front end.  *)
EXTENDS YucaFront, Json

Tags == {"", "pattern_search", "my_pattern_2", "coevo", "coevolution_test", "halting", "ca_search", "patter", "coev",
         "pattern_coevo", "coevo_patterns", "Pattern", "no-tag"}
Unknown == {"", "FooCA", "cca", "Life", "CA"}
UnknownEnvs == {"GliderWrapper", "", "haltingwrapper", "Wrapper", "FooWrapper"}
Dtypes == {"float32", "float64", "torch.float64", "torch.float32"}
Options == {"activation", "batch_size", "ca_steps", "ca_config", "internal_channels", "device", "dt", "selection_mode",
            "generations", "hidden_channels", "input_filepath", "kernel_radius", "kernel_peaks", "replicates", "dim",
            "population_size", "prediction_mode", "seed", "conv_mode", "workers", "external_channels"}
VARIABLES hist, done
vars == <<hist, done>>
Init == hist = <<>> /\ done = FALSE
One(S) == RandomElement(S)
Next ==
  \/ /\ ~done /\ Len(hist) < 8
     /\ UNCHANGED done
     /\ \E t \in {One(Tags)}, u \in {One(1..6)}, v \in {One(1..6)}, d \in {One(Dtypes)}, way \in {One({"call", "call", "line", "live"})} :
        \E c \in {IF u = 1 THEN One(Unknown) ELSE One(Automata)}, e \in {IF v = 1 THEN One(UnknownEnvs) ELSE One(RuleEnvs)} :
        \E o \in {{x \in Options : One(1..2) = 1}} :
        \E toks \in {[x \in o |-> One(1..3)]} :
          hist' = Append(hist, [tag |-> t, ca |-> c, env |-> e, dtype |-> d, way |-> way, options |-> toks])
  \/ /\ ~done /\ Len(hist) = 8
     /\ done' = TRUE /\ UNCHANGED hist
     /\ PrintT("SCENARIO|" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
