----------------------------- MODULE HashDesign -----------------------------
(***************************************************************************)
(* How the hash functions get from calls to blocks: the block buffer of    *)
(* internal/update.h (update_block_soak), padding in a buffer of two       *)
(* blocks (finalize), and the finalization flag of hash::apie.             *)
(*                                                                         *)
(* Message bytes are represented by their positions, so that the module    *)
(* shows for every slicing that the compression function gets exactly the  *)
(* blocks of the padded message, each byte once and in order, and only     *)
(* once; that is what Milo!HashDigest presumes.  B and F are the sizes of  *)
(* a block and of the length field; the scheme does not depend on their    *)
(* values.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS B, F, Limit, Chunks

VARIABLES size,     \* bytes given so far
          buf,      \* the buffer: 2 * B cells, stale cells included
          fill,     \* valid cells
          blocks,   \* blocks compressed so far
          fin       \* finalized

vars == <<size, buf, fill, blocks, fin>>

Stale == 99
Marker == -1
Msg(n) == [i \in 1..n |-> i]
Zeros(n) == [i \in 1..n |-> 0]
LenField(n) == Zeros(F - 1) \o <<-(2 + n)>>

Lesser(a, b) == IF a < b THEN a ELSE b

\* cells [at, at + Len(s)) of the buffer := s
Put(b, at, s) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(s) THEN s[i - at] ELSE b[i]]

Split(s) == [k \in 1..(Len(s) \div B) |-> SubSeq(s, (k - 1) * B + 1, k * B)]

Init == /\ size = 0 /\ fill = 0 /\ blocks = <<>> /\ fin = FALSE
        /\ buf = [i \in 1..(2 * B) |-> Stale]

Soak(src) ==
    LET left == B - fill
        todo == IF fill > 0 THEN Lesser(left, Len(src)) ELSE 0
        b1 == Put(buf, fill, SubSeq(src, 1, todo))
        early == fill > 0 /\ todo < left
        first == IF fill > 0 THEN <<SubSeq(b1, 1, B)>> ELSE <<>>
        rest == SubSeq(src, todo + 1, Len(src))
        full == Len(rest) \div B
        last == Len(rest) % B
    IN  IF early
        THEN /\ buf' = b1 /\ fill' = fill + todo /\ UNCHANGED blocks
        ELSE /\ blocks' = blocks \o first \o Split(SubSeq(rest, 1, full * B))
             /\ buf' = Put(b1, 0, SubSeq(rest, full * B + 1, Len(rest)))
             /\ fill' = last

Update(k) == /\ ~fin /\ size + k <= Limit
             /\ Soak([i \in 1..k |-> size + i])
             /\ size' = size + k
             /\ UNCHANGED fin

Digest == IF fin THEN UNCHANGED vars
          ELSE LET last == IF fill >= B - F THEN 2 * B ELSE B
                   b == Put(Put(buf, fill, <<Marker>> \o Zeros(last - F - fill - 1)), last - F, LenField(size))
               IN  /\ buf' = b
                   /\ blocks' = blocks \o Split(SubSeq(b, 1, last))
                   /\ fin' = TRUE
                   /\ UNCHANGED <<size, fill>>

\* initialize does not clear the buffer.
Again == /\ size' = 0 /\ fill' = 0 /\ blocks' = <<>> /\ fin' = FALSE /\ UNCHANGED buf

Next == Digest \/ Again \/ \E k \in Chunks : Update(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Padded(n) == Msg(n) \o <<Marker>> \o Zeros((2 * B - n - 1 - F) % B) \o LenField(n)

TypeOK == fill \in 0..(B - 1) /\ Len(buf) = 2 * B

Absorbed == ~fin => /\ fill = size % B
                    /\ FlattenSeq(blocks) \o SubSeq(buf, 1, fill) = Msg(size)

Compressed == fin => FlattenSeq(blocks) = Padded(size)
=============================================================================
