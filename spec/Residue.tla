------------------------------ MODULE Residue ------------------------------
(***************************************************************************)
(* What destroyed objects may leave in the memory they occupied.  A life   *)
(* is the list of calls up to a destruction.  Lives are alike if they have *)
(* the same calls with operands of the same sizes: then they differ in the *)
(* contents of keys, messages, tags and so on only, and the memory that is *)
(* left must be the same.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLE left       \* kinds of lives -> memory seen after the destruction

\* What is public of a call: not where the operands are, nor what is in them.
PublicRef(q) == q[3]
Public(e) ==
    [op |-> e.op,
     slots |-> IF "d" \in DOMAIN e /\ "o" \in DOMAIN e THEN <<e.d, e.o>> ELSE IF "o" \in DOMAIN e THEN <<e.o>> ELSE <<>>,
     sizes |-> [f \in DOMAIN e \cap {"a", "b", "c"} |-> PublicRef(e[f])],
     number |-> [f \in DOMAIN e \cap {"n", "i"} |-> e[f]]]

\* program: a type compiled in some way.
Life(program, calls) == [p |-> program, calls |-> [i \in DOMAIN calls |-> Public(calls[i])]]

Destroyed(life, memory) ==
    /\ life \in DOMAIN left => left[life] = memory
    /\ left' = [x \in DOMAIN left \cup {life} |-> IF x = life THEN memory ELSE left[x]]
=============================================================================
