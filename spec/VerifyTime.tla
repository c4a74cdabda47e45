----------------------------- MODULE VerifyTime -----------------------------
(***************************************************************************)
(* What an observer of time may see of verifications.  A verification has  *)
(* a class (program, form of the call, sizes, state of the object), a      *)
(* verdict and a trace: the sequence of instructions it executed (numbers  *)
(* from zero) and of its accesses to bytes of the presented tag (negative  *)
(* numbers).  Within a class the trace is a function of the verdict, and   *)
(* traces of different verdicts part only after the last access to the     *)
(* tag, so that nothing but the verdict can be learned from them.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

VARIABLE seen   \* class -> verdict -> trace or <<>>: none yet

\* The position where two traces part.
RECURSIVE PartFrom(_, _, _)
PartFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i
                     ELSE IF a[i] # b[i] THEN i
                     ELSE PartFrom(a, b, i + 1)
\* Traces are long: in steps.
RECURSIVE PartIn(_, _, _)
PartIn(a, b, i) == IF i + 64 > Len(a) \/ i + 64 > Len(b) \/ SubSeq(a, i, i + 63) # SubSeq(b, i, i + 63) THEN PartFrom(a, b, i)
                   ELSE PartIn(a, b, i + 64)

Part(a, b) == PartIn(a, b, 1)

NoTagFrom(a, i) == \A k \in i .. Len(a) : a[k] >= 0

LateEnough(a, b) == LET i == Part(a, b) IN NoTagFrom(a, i) /\ NoTagFrom(b, i)

Fresh(classes) == [c \in classes |-> [v \in BOOLEAN |-> <<>>]]

\* A verification of two tags, equal or not.
Verify(c, equal, verdict, trace) ==
    /\ verdict = equal
    /\ seen[c][verdict] \in {<<>>, trace}
    /\ seen[c][~verdict] # <<>> => LateEnough(trace, seen[c][~verdict])
    /\ seen' = [seen EXCEPT ![c][verdict] = trace]
=============================================================================
