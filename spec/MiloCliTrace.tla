---------------------------- MODULE MiloCliTrace ----------------------------
(***************************************************************************)
(* Validation of recorded runs of the application: RECORDS names a file    *)
(* with one run per line, ASPECT is "selection" or "consistency".          *)
(***************************************************************************)
EXTENDS MiloCli, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.RECORDS)

ASSUME TLCSet(1, Records)

VARIABLE i

Init == i = 1

Next == \/ i <= Len(TLCGet(1)) /\ (Admits(TLCGet(1)[i], IOEnv.ASPECT) = TRUE) /\ i' = i + 1
        \/ i > Len(TLCGet(1)) /\ UNCHANGED i

Spec == Init /\ [][Next]_i

Report == [position |-> i]
=============================================================================
