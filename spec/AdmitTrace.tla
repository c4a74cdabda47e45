----------------------------- MODULE AdmitTrace -----------------------------
(***************************************************************************)
(* Validation of recorded compilations against Admit.  RECORDS names a     *)
(* file with one form or type per line, whether it compiled, and what it   *)
(* then says about itself.                                                 *)
(***************************************************************************)
EXTENDS Admit, Json, IOUtils, TLC

Records == ndJsonDeserialize(IOEnv.RECORDS)

VARIABLE i

Init == i = 1

Next == \/ /\ i <= Len(Records)
           /\ RecordOk(Records[i]) = TRUE
           /\ i' = i + 1
        \/ i > Len(Records) /\ UNCHANGED i

Spec == Init /\ [][Next]_i

Report == [position |-> i]
=============================================================================
