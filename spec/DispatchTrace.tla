--------------------------- MODULE DispatchTrace ---------------------------
(***************************************************************************)
(* Validation of recorded runs against Dispatch.  RECORDS names a file     *)
(* with one run per line: the processor, the needs of the accelerated      *)
(* backends and what the default implementation executed.                  *)
(***************************************************************************)
EXTENDS Dispatch, Sequences, Json, IOUtils, TLC

Records == ndJsonDeserialize(IOEnv.RECORDS)

LOCAL Set(q) == {q[i] : i \in DOMAIN q}
Cpu(r) == [max |-> r.max, l1c |-> Set(r.l1c), l7b |-> Set(r.l7b), xcr0 |-> Set(r.xcr0)]

\* Runs of defaults, of backends that were asked for, and of backends by name.
RunOk(r) ==
    CASE r.kind = "default" -> Suits(Cpu(r), {Set(r.needs[k]) : k \in DOMAIN r.needs}, Set(r.executed))
      [] r.kind = "option"  -> Selected(Cpu(r), [b \in DOMAIN r.needs |-> Set(r.needs[b])], r.enforced, r.preferred, Set(r.executed))
      [] r.kind = "named"   -> Named(r.backend, Set(r.executed))

VARIABLE i

Init == i = 1

Next == \/ /\ i <= Len(Records)
           /\ LET r == Records[i]
              IN  RunOk(r) = TRUE
           /\ i' = i + 1
        \/ i > Len(Records) /\ UNCHANGED i

Spec == Init /\ [][Next]_i

Report == [position |-> i]
=============================================================================
