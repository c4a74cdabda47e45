------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* The memory that a call may touch.  An access is [g, k, from, to]: bytes *)
(* [from, to) relative to the start of the operand g, of kind "r" (read of *)
(* a byte of an input, or of a byte of the output that this call has       *)
(* written), "u" (read of any other byte) or "w" (written).                *)
(*                                                                         *)
(* Operands: a, b, c, d, t as in the event, f and g the inputs that a key  *)
(* derivation keeps looking at, o the output, t the tag when sealing.      *)
(***************************************************************************)
EXTENDS Milo

LOCAL In(n) == [r |-> n, w |-> 0]
LOCAL Out(n) == [r |-> n, w |-> n]
LOCAL Nothing == [r |-> 0, w |-> 0]

\* Of the inputs in event e, and of what the object o looks at.
LOCAL Input(e, g) == IF g \in DOMAIN e THEN In(e[g][3]) ELSE Nothing

LOCAL OutSize(e) ==
    CASE e.op \in {"dig", "der", "cenc"} -> Len(e.out)
      [] e.op \in {"enc", "dec"} -> e.a[3]
      [] e.op \in {"seal", "open"} -> e.d[3]
      [] e.op = "cdec" -> Len(Decoded(e.k, RefBytes([m |-> e.a[1], s |-> e.a[2], n |-> e.a[3]])).b)
      [] OTHER -> 0

\* How much of operand g the call e may read and write.
Limit(e, g) ==
    CASE g = "o" -> Out(OutSize(e))
      [] g = "t" /\ e.op = "seal" -> Out(16)
      [] g \in {"a", "b", "c"} /\ e.op \in {"pbk", "der"} -> Nothing
      [] g = "f" -> CASE e.op = "hkdf" -> Input(e, "c")
                      [] e.op = "pbk" -> Input(e, "a")
                      [] e.op = "der" -> In(Size(IF obj[e.o].k = "hkdf" THEN obj[e.o].info ELSE obj[e.o].ikm).n)
                      [] OTHER -> Nothing
      [] g = "g" -> CASE e.op = "pbk" -> Input(e, "b")
                      [] e.op = "der" /\ obj[e.o].k = "pbkdf" -> In(Size(obj[e.o].salt).n)
                      [] OTHER -> Nothing
      [] g = "c" /\ e.op = "hkdf" -> Nothing
      [] OTHER -> Input(e, g)

AccessOk(e, x) ==
    /\ x.from >= 0
    /\ CASE x.k = "r" -> x.to <= Limit(e, x.g).r
         [] x.k = "w" -> x.to <= Limit(e, x.g).w
         [] OTHER -> FALSE

AccessesOk(e) == \A i \in DOMAIN e.acc : AccessOk(e, e.acc[i])
=============================================================================
