--------------------------- MODULE DispatchDesign ---------------------------
(***************************************************************************)
(* How milo chooses a backend: at the start of the program CPUID is read,  *)
(* every backend has a list of required extensions, and the first one in   *)
(* order of preference whose list is covered is used for good.             *)
(*                                                                         *)
(* Shown for every processor: the choice suits it, whatever the processor  *)
(* reports, as long as the lists cover what the code executes.             *)
(***************************************************************************)
EXTENDS Dispatch, Sequences

VARIABLES c,            \* the processor
          step,         \* "start", "leaf1", "leaf7", "xcr0", "done"
          seen,         \* bits read so far: [l1c, l7b, ymm]
          ran           \* primitive -> extensions executed by its default

vars == <<c, step, seen, ran>>

\* Preference lists: required extensions and executed ones.
Backends == [
    chacha |-> << [req |-> {"sse3", "ssse3", "avx", "avx2"}, exe |-> {"avx", "avx2"}],
                  [req |-> {"sse3", "ssse3"}, exe |-> {"ssse3"}] >>,
    sha_1  |-> << [req |-> {"sse3", "ssse3", "sha"}, exe |-> {"ssse3", "sha"}] >>,
    sha_2  |-> << [req |-> {"sse3", "ssse3", "avx", "sha"}, exe |-> {"ssse3", "avx", "sha"}] >>]

\* The bits that matter, and two that do not.
Bits1 == {0, 9, 19, 20, 27, 28}
Bits7 == {5, 29}

Init == /\ c \in [max : {1, 7, 13}, l1c : SUBSET Bits1, l7b : SUBSET Bits7,
                  xcr0 : {{0}, {0, 1}, {0, 1, 2}, {0, 2}}]
        /\ step = "start"
        /\ seen = [l1c |-> {}, l7b |-> {}, ymm |-> FALSE]
        /\ ran = [p \in {} |-> {}]

Leaf1 == /\ step = "start"
         /\ seen' = IF c.max >= 1 THEN [seen EXCEPT !.l1c = c.l1c] ELSE seen
         /\ step' = "leaf1" /\ UNCHANGED <<c, ran>>

Leaf7 == /\ step = "leaf1"
         /\ seen' = IF c.max >= 7 THEN [seen EXCEPT !.l7b = c.l7b] ELSE seen
         /\ step' = "leaf7" /\ UNCHANGED <<c, ran>>

\* Reading XCR0 is an instruction of its own, that is there with OSXSAVE.
Xcr0 == /\ step = "leaf7"
        /\ seen' = IF Osxsave \in seen.l1c THEN [seen EXCEPT !.ymm = {1, 2} \subseteq c.xcr0] ELSE seen
        /\ step' = "done" /\ UNCHANGED <<c, ran>>

Thinks(x) == CASE x \in {"avx"} -> seen.ymm /\ Leaf1Bit[x] \in seen.l1c
               [] x \in {"avx2"} -> seen.ymm /\ Leaf7Bit[x] \in seen.l7b
               [] x \in DOMAIN Leaf1Bit -> Leaf1Bit[x] \in seen.l1c
               [] OTHER -> Leaf7Bit[x] \in seen.l7b

Covered(b) == \A x \in b.req : Thinks(x)

Choice(p) == LET l == Backends[p]
                 ok == {k \in DOMAIN l : Covered(l[k])}
             IN  IF ok = {} THEN {} ELSE l[CHOOSE k \in ok : \A j \in ok : k <= j].exe

Use(p) == /\ step = "done" /\ p \notin DOMAIN ran
          /\ ran' = [q \in DOMAIN ran \cup {p} |-> IF q = p THEN Choice(p) ELSE ran[q]]
          /\ UNCHANGED <<c, step, seen>>

Next == Leaf1 \/ Leaf7 \/ Xcr0 \/ \E p \in DOMAIN Backends : Use(p)

Spec == Init /\ [][Next]_vars

Needs(p) == {Backends[p][k].exe : k \in DOMAIN Backends[p]}

Inv == \A p \in DOMAIN ran : Suits(c, Needs(p), ran[p])
=============================================================================
