----------------------------- MODULE GlobDesign -----------------------------
(***************************************************************************)
(* The matching of expressions, character by character with one point to   *)
(* return to (the last star), as the application does it; and the          *)
(* definition of what it should decide.  For all expressions and texts up  *)
(* to a size.                                                              *)
(***************************************************************************)
EXTENDS MiloCli

CONSTANTS MaxPattern, MaxText

VARIABLES p, s, i, j, si, sj, verdict
vars == <<p, s, i, j, si, sj, verdict>>

RECURSIVE Strings(_, _)
Strings(a, n) == IF n = 0 THEN {""} ELSE LET r == Strings(a, n - 1) IN r \cup {x \o c : x \in r, c \in a}

\* By definition: a star and the rest match if the rest matches some suffix.
RECURSIVE Means(_, _)
Means(q, t) == IF q = "" THEN t = ""
               ELSE IF Ch(q, 1) = "*" THEN \E k \in 0 .. Len(t) : Means(After(q, 1), After(t, k))
               ELSE t # "" /\ Ch(q, 1) = Ch(t, 1) /\ Means(After(q, 1), After(t, 1))

Init == /\ p \in Strings({"a", "b", "*"}, MaxPattern)
        /\ s \in Strings({"a", "b"}, MaxText)
        /\ i = 0 /\ j = 0 /\ si = 0 /\ sj = 0 /\ verdict = "open"

Step == /\ verdict = "open" /\ j < Len(s)
        /\ CASE i < Len(p) /\ Ch(p, i + 1) = "*" -> /\ i' = i + 1 /\ si' = i + 1 /\ sj' = j /\ UNCHANGED <<j, verdict>>
             [] i < Len(p) /\ Ch(p, i + 1) = Ch(s, j + 1) -> /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<si, sj, verdict>>
             [] si > 0 -> /\ sj' = sj + 1 /\ i' = si /\ j' = sj + 1 /\ UNCHANGED <<si, verdict>>
             [] OTHER -> verdict' = "no" /\ UNCHANGED <<i, j, si, sj>>
        /\ UNCHANGED <<p, s>>

End == /\ verdict = "open" /\ j >= Len(s)
       /\ verdict' = IF \A k \in i + 1 .. Len(p) : Ch(p, k) = "*" THEN "yes" ELSE "no"
       /\ UNCHANGED <<p, s, i, j, si, sj>>

Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == /\ verdict = "yes" => Matches(p, s)
         /\ verdict = "no" => ~Matches(p, s)
Meant == verdict # "open" => Matches(p, s) = Means(p, s)
Ends == <>(verdict # "open")
=============================================================================
