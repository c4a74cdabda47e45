--------------------------- MODULE TestingDesign ----------------------------
(***************************************************************************)
(* How a test program comes to its verdict: the vectors one after the      *)
(* other for each implementation, byte by byte, the failing one told by    *)
(* its id, then the implementations against each other.  It succeeds       *)
(* exactly if everything it was given is met; a program that lacks one     *)
(* part of that (Lacks) succeeds with something that is not.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Lacks, Impls, Vectors

Texts == UNION {[1..n -> {0, 1}] : n \in 0..1}

VARIABLES answer,    \* of each implementation to the input of each vector, and last to one of no vector
          wanted,    \* what each vector expects
          id,        \* of each vector
          many,      \* implementations that are listed
          pc, i, v, result, exit

vars == <<answer, wanted, id, many, pc, i, v, result, exit>>

Init == /\ answer \in [1..Impls -> [1..(Vectors + 1) -> Texts]]
        /\ wanted \in [1..Vectors -> Texts]
        /\ many \in 0..Impls
        \* The generator refuses an id that says success.
        /\ id \in [1..Vectors -> IF Lacks = "zero" THEN 0..1 ELSE {1}]
        /\ pc = IF many = 0 THEN "end" ELSE "vectors"
        /\ i = 1 /\ v = (IF Lacks = "first" THEN 2 ELSE 1)
        /\ result = 0
        /\ exit = IF many = 0 THEN (IF Lacks = "nobody" THEN 0 ELSE 1) ELSE 0

Least(a, b) == IF a < b THEN a ELSE b

Equal(a, b) == IF Lacks = "prefix" THEN LET n == Least(Len(a), Len(b)) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)
               ELSE a = b

Ends == IF Lacks = "last" THEN Vectors - 1 ELSE Vectors

Vector == /\ pc = "vectors" /\ v <= Ends
          /\ IF Equal(answer[i][v], wanted[v])
             THEN v' = v + 1 /\ UNCHANGED <<pc, result>>
             ELSE result' = id[v] /\ pc' = "told" /\ UNCHANGED v
          /\ UNCHANGED <<answer, wanted, id, many, i, exit>>

Met == /\ pc = "vectors" /\ v > Ends
       /\ result' = 0 /\ pc' = "told"
       /\ UNCHANGED <<answer, wanted, id, many, i, v, exit>>

Told == /\ pc = "told"
        /\ IF result # 0 /\ Lacks # "quiet"
           THEN pc' = "end" /\ exit' = 1 /\ UNCHANGED <<i, v>>
           ELSE IF i < many THEN pc' = "vectors" /\ i' = i + 1 /\ v' = (IF Lacks = "first" THEN 2 ELSE 1) /\ UNCHANGED exit
                ELSE pc' = "pairs" /\ UNCHANGED <<i, v, exit>>
        /\ UNCHANGED <<answer, wanted, id, many, result>>

\* The implementations are compared on inputs of no vector.
Pairs == /\ pc = "pairs"
         /\ exit' = IF Lacks # "pairs" /\ \E a, b \in 1..many : answer[a][Vectors + 1] # answer[b][Vectors + 1] THEN 1 ELSE 0
         /\ pc' = "end"
         /\ UNCHANGED <<answer, wanted, id, many, i, v, result>>

Next == Vector \/ Met \/ Told \/ Pairs

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllMet == \A a \in 1..many, w \in 1..Vectors : answer[a][w] = wanted[w]

Same == \A a, b \in 1..many : answer[a][Vectors + 1] = answer[b][Vectors + 1]

Good == pc = "end" => ((exit = 0) = (many > 0 /\ AllMet /\ Same))
=============================================================================
