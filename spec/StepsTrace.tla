----------------------------- MODULE StepsTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of PBKDF2 over the function of Steps.       *)
(* RECORDS: a file with one piece of output per line: the width w, the     *)
(* iterations c, salt, the index of the block where it begins (c and index *)
(* as four bytes), its offset in that block and its bytes.                 *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils, TLC

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.RECORDS))

VARIABLE i

\* index + k
RECURSIVE After(_, _)
After(index, k) == IF k = 0 THEN index ELSE After(Sum(index, One(4)), k - 1)

Derived(r) ==
    \A j \in 0 .. (r.offset + Len(r.out)) \div r.w :
        LET b == TLCEval(Block(r.salt, After(r.index, j), r.c, r.w))
        IN  \A k \in 1 .. r.w :
                LET at == j * r.w + k - r.offset
                IN  at \in DOMAIN r.out => r.out[at] = b[k]

Init == i = 1
Next == \/ i <= Len(TLCGet(1)) /\ (Derived(TLCGet(1)[i]) = TRUE) /\ i' = i + 1
        \/ i > Len(TLCGet(1)) /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
