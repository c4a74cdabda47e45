---------------------------- MODULE CipherDesign ----------------------------
(***************************************************************************)
(* How ChaCha20 gets from calls to keystream: whole strides of a backend   *)
(* are produced into the output, the last partial one into a buffer whose  *)
(* rest waits at its end (internal/update.h, update_block_prod_xor); the   *)
(* backend reports how many blocks it used and the caller advances the     *)
(* counter, which wraps.                                                   *)
(*                                                                         *)
(* Keystream bytes are represented by <<counter, index>>.  An object made  *)
(* in a constant expression (backend with stride 1) may be continued with  *)
(* another backend: Switch.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Blk,      \* bytes per block
          Strides,  \* possible numbers of blocks per stride
          Most,     \* blocks that fit into the buffer
          Mod,      \* counters are modulo this
          Limit, Chunks

VARIABLES ctr0, ctr, stride, buf, left, pos, out

vars == <<ctr0, ctr, stride, buf, left, pos, out>>

Lesser(a, b) == IF a < b THEN a ELSE b
Cap == Blk * Most

\* What a backend produces for n blocks from counter c: every lane adds its
\* number to the counter, modulo Mod.
Produce(c, n) == [i \in 1..(n * Blk) |-> <<(c + (i - 1) \div Blk) % Mod, (i - 1) % Blk>>]

Init == /\ ctr0 \in 0..(Mod - 1) /\ ctr = ctr0
        /\ stride \in Strides
        /\ buf = [i \in 1..Cap |-> <<-1, -1>>]
        /\ left = 0 /\ pos = 0 /\ out = <<>>

\* The new state after the call, which delivers n bytes of keystream.
Crypt(n) ==
    LET size == stride * Blk
        todo == IF left > 0 THEN Lesser(left, n) ELSE 0
        a == SubSeq(buf, Cap - left + 1, Cap - left + todo)
        early == left > 0 /\ todo < left
        rest == n - todo
        full == rest \div size
        last == rest % size
        c1 == (ctr + full * stride) % Mod
        g == Produce(c1, stride)
    IN  /\ pos + n <= Limit
        /\ pos' = pos + n
        /\ IF early
           THEN left' = left - todo /\ out' = a /\ UNCHANGED <<ctr, buf>>
           ELSE /\ out' = a \o Produce(ctr, full * stride) \o SubSeq(g, 1, last)
                /\ IF last > 0
                   THEN /\ buf' = SubSeq(buf, 1, Cap - size) \o g
                        /\ ctr' = (c1 + stride) % Mod
                        /\ left' = size - last
                   ELSE /\ ctr' = c1 /\ left' = 0 /\ UNCHANGED buf
        /\ UNCHANGED <<ctr0, stride>>

Switch == /\ stride = 1
          /\ stride' \in Strides
          /\ out' = <<>>
          /\ UNCHANGED <<ctr0, ctr, buf, left, pos>>

Next == Switch \/ \E n \in Chunks : Crypt(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Key(p) == <<(ctr0 + p \div Blk) % Mod, p % Blk>>

\* Every call delivers the next bytes of the one keystream.
Delivered == out = [i \in 1..Len(out) |-> Key(pos - Len(out) + i - 1)]
Room == left < stride * Blk \/ left < Blk
=============================================================================
