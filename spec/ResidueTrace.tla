---------------------------- MODULE ResidueTrace ----------------------------
(***************************************************************************)
(* Validation of recorded destructions against Residue.  RECORDS: a file   *)
(* with one destruction per line: program, calls, memory; those of lives   *)
(* that are alike are next to each other (first: whether it starts a new   *)
(* kind, which is checked).  Kinds that are over are forgotten.            *)
(***************************************************************************)
EXTENDS Residue, Json, IOUtils, TLC

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.RECORDS))

VARIABLE i

Init == i = 1 /\ left = [x \in {} |-> ""]

Next == \/ /\ i <= Len(TLCGet(1))
           /\ LET r == TLCGet(1)[i]
                  l == TLCEval(Life(r.program, r.calls))
              IN  IF r.first THEN left' = [x \in {l} |-> r.memory]
                  ELSE l \in DOMAIN left /\ Destroyed(l, r.memory)
           /\ i' = i + 1
        \/ i > Len(TLCGet(1)) /\ UNCHANGED <<i, left>>

Spec == Init /\ [][Next]_<<i, left>>

View == i
Report == [position |-> i]
=============================================================================
