----------------------------- MODULE KernelTrace -----------------------------
(* Recorded kernels against their profiles (YucaKernels).                     *)
EXTENDS YucaKernels

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = {}

Next ==
  /\ verdict = {}
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         f == IF ~e.ok THEN {"raised: " \o e.exc}
              ELSE TLCEval(CASE e.k = "kernel" -> KernelFails(e)
                             [] e.k = "moore" -> Moore(e)
                             [] e.k = "inner" -> Fail("inner", e.exact /\ e.w = <<0, 0, 0, 0, 1, 0, 0, 0, 0>> /\ e.shape = <<1, 1, 3, 3>>)
                             [] e.k = "nine" -> Fail("nine-point", e.w = <<1, 2, 1, 2, -12, 2, 1, 2, 1>> /\ e.shape = <<1, 1, 3, 3>>)
                             [] e.k = "unknown" -> Fail("unknown-kernel-accepted", e.refused)
                             [] OTHER -> {"unknown-event"})
     IN /\ verdict' = f
        /\ (IF f = {} THEN TRUE ELSE Report(T.id, l, e.k, f))
        /\ IF f # {} THEN UNCHANGED <<tid, l>>
           ELSE l' = l + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
