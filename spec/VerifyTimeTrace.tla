--------------------------- MODULE VerifyTimeTrace ---------------------------
(***************************************************************************)
(* Validation of recorded verifications.  RECORDS: a file with a record    *)
(* [classes, traces, runs].                                                *)
(***************************************************************************)
EXTENDS VerifyTime, Json, IOUtils, TLC

R == JsonDeserialize(IOEnv.RECORDS)

ASSUME TLCSet(1, R)

VARIABLE i

Init == i = 1 /\ seen = Fresh(1 .. TLCGet(1).classes)

Next == \/ /\ i <= Len(TLCGet(1).runs)
           /\ LET r == TLCGet(1).runs[i]
              IN  Verify(r.c, r.equal, r.verdict, TLCGet(1).traces[r.t])
           /\ i' = i + 1
        \/ i > Len(TLCGet(1).runs) /\ UNCHANGED <<i, seen>>

Spec == Init /\ [][Next]_<<i, seen>>

View == i
Report == [position |-> i]
=============================================================================
