---------------------------- MODULE StepsDesign ----------------------------
(***************************************************************************)
(* The iteration of PBKDF2 over the function of Steps, step by step: u is  *)
(* U_j and t the combination of U_1 to U_j.  For every salt, index and     *)
(* count of a small word the closed form of Steps is what it yields.       *)
(***************************************************************************)
EXTENDS Steps

CONSTANT W

VARIABLES salt, index, j, u, t
vars == <<salt, index, j, u, t>>

Digits == 0 .. Base - 1
F(m) == Sum(Last(m, W), One(W))

RECURSIVE Number(_, _)
Number(n, w) == IF w = 0 THEN <<>> ELSE Append(Number(n \div Base, w - 1), n % Base)

Init == /\ salt \in UNION {[1 .. n -> Digits] : n \in 0 .. 2}
        /\ index \in [1 .. 2 -> Digits]
        /\ j = 1
        /\ u = F(salt \o index)
        /\ t = u

Next == /\ j < Base * Base * Base - 1
        /\ j' = j + 1
        /\ u' = F(u)
        /\ t' = XorOf(t, u')
        /\ UNCHANGED <<salt, index>>

Spec == Init /\ [][Next]_vars

\* More iterations than there are words included.
Closed == t = Block(salt, index, Number(j, 3), W)
============================================================================
