-------------------------- MODULE VerifyTimeDesign --------------------------
(***************************************************************************)
(* The comparison of tags, instruction by instruction, observed as in      *)
(* VerifyTime: all differences are accumulated before the verdict.  With   *)
(* Early the comparison ends at the first difference; an observer tells    *)
(* such verifications apart (the invariant does not hold).                 *)
(***************************************************************************)
EXTENDS VerifyTime

CONSTANTS Size, Values, Early

VARIABLES a, b,      \* the computed and the presented tag
          pc, i, acc, trace, verdict, refused

Tags == [1 .. Size -> Values]
vars == <<a, b, pc, i, acc, trace, verdict, refused, seen>>

Init == /\ a \in Tags /\ b \in Tags
        /\ pc = "loop" /\ i = 1 /\ acc = {} /\ trace = <<>> /\ verdict = FALSE /\ refused = FALSE
        /\ seen = Fresh({1})

\* A load of one byte of the presented tag, a comparison, an accumulation.
Loop == /\ pc = "loop" /\ i <= Size /\ ~(Early /\ acc # {})
        /\ acc' = IF a[i] # b[i] THEN acc \cup {i} ELSE acc
        /\ trace' = trace \o <<0, -i, 1, 2>>
        /\ i' = i + 1
        /\ UNCHANGED <<a, b, pc, verdict, refused, seen>>

Leave == /\ pc = "loop" /\ (i > Size \/ (Early /\ acc # {}))
         /\ verdict' = (acc = {})
         /\ trace' = trace \o (IF acc = {} THEN <<0, 3, 4, 6>> ELSE <<0, 3, 5, 6>>)
         /\ pc' = "seen"
         /\ UNCHANGED <<a, b, i, acc, refused, seen>>

\* Another verification.
Observe == /\ pc = "seen"
           /\ \/ Verify(1, a = b, verdict, trace) /\ UNCHANGED refused
              \/ ~ENABLED Verify(1, a = b, verdict, trace) /\ refused' = TRUE /\ UNCHANGED seen
           /\ a' \in Tags /\ b' \in Tags
           /\ pc' = "loop" /\ i' = 1 /\ acc' = {} /\ trace' = <<>> /\ verdict' = FALSE

Next == Loop \/ Leave \/ Observe

Spec == Init /\ [][Next]_vars

Indistinguishable == ~refused
=============================================================================
