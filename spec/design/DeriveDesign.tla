---------------------------- MODULE DeriveDesign ----------------------------
(***************************************************************************)
(* How HKDF and PBKDF2 deliver one stream of blocks in pieces of any size. *)
(* HKDF always holds the block after the last one delivered in its buffer, *)
(* since the next block is computed from it; PBKDF2 holds a block only     *)
(* while some of it is left.                                               *)
(*                                                                         *)
(* Byte j of block c is <<c, j>>; an HKDF block computed from the wrong    *)
(* predecessor is <<0, 0>>.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS D, Blocks, Chunks, Kinds

VARIABLES kind, ctr, buf, left, pos, out

vars == <<kind, ctr, buf, left, pos, out>>

Lesser(a, b) == IF a < b THEN a ELSE b
Block(c) == [j \in 1..D |-> <<c, j>>]
Bad == [j \in 1..D |-> <<0, 0>>]
None == <<>>

\* Expand block c from its predecessor; the first has none.
Expand(c, prev) == IF (c = 1 /\ prev = None) \/ (c > 1 /\ prev = Block(c - 1)) THEN Block(c) ELSE Bad

Init == /\ kind \in Kinds /\ ctr = 1 /\ left = 0 /\ pos = 0 /\ out = <<>>
        /\ buf = [j \in 1..D |-> <<-1, -1>>]

\* n blocks from counter c, the first from prev: [b |-> bytes, last |-> last block]
Run(c, n, prev) ==
    FoldLeft(LAMBDA a, i : LET x == Expand(c + i - 1, a.last) IN [b |-> a.b \o x, last |-> x],
             [b |-> <<>>, last |-> prev], [i \in 1..n |-> i])

Derive(n) ==
    LET todo == IF left > 0 THEN Lesser(n, left) ELSE 0
        a == SubSeq(buf, D - left + 1, D - left + todo)
        rest == n - todo
        full == rest \div D
        last == rest % D
        prev == IF ctr = 1 THEN None ELSE buf
        h == Run(ctr, full + 1, prev)                       \* hkdf: one more than needed
        p == [i \in 1..(full * D) |-> <<ctr + (i - 1) \div D, ((i - 1) % D) + 1>>]
    IN  /\ pos + n <= Blocks * D
        /\ pos' = pos + n
        /\ IF rest = 0 THEN left' = left - todo /\ out' = a /\ UNCHANGED <<ctr, buf>>
           ELSE IF kind = "hkdf"
           THEN /\ out' = a \o SubSeq(h.b, 1, rest)
                /\ buf' = h.last /\ left' = D - last /\ ctr' = ctr + full + 1
           ELSE /\ out' = a \o p \o SubSeq(Block(ctr + full), 1, last)
                /\ IF last > 0 THEN buf' = Block(ctr + full) /\ left' = D - last /\ ctr' = ctr + full + 1
                   ELSE UNCHANGED buf /\ left' = 0 /\ ctr' = ctr + full
        /\ UNCHANGED kind

Next == \E n \in Chunks : Derive(n)
Spec == Init /\ [][Next]_vars

Delivered == out = [i \in 1..Len(out) |->
    LET q == pos - Len(out) + i - 1 IN <<q \div D + 1, (q % D) + 1>>]

\* The counter of HKDF is a byte: it never exceeds the number of blocks by
\* more than the one computed ahead, and what is delivered never wraps.
Counter == ctr <= Blocks + 2
=============================================================================
