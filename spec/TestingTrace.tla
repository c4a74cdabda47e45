---------------------------- MODULE TestingTrace -----------------------------
(***************************************************************************)
(* Validation of recorded verdicts against Testing.  RECORDS names a file  *)
(* with one verdict, or one generated program and its run, per line.       *)
(***************************************************************************)
EXTENDS Testing, Json, IOUtils, TLC

Records == ndJsonDeserialize(IOEnv.RECORDS)

VARIABLE i

Init == i = 1

Next == \/ /\ i <= Len(Records)
           /\ RecordOk(Records[i]) = TRUE
           /\ i' = i + 1
        \/ i > Len(Records) /\ UNCHANGED i

Spec == Init /\ [][Next]_i

Report == [position |-> i]
=============================================================================
