----------------------------- MODULE CodecDesign -----------------------------
(***************************************************************************)
(* The closed forms of LongBase agree with Base, for every small unit and  *)
(* size and for endings of up to MaxEnd characters; and decoding inverts   *)
(* encoding, in the size that the size functions give.  Every state is one *)
(* case.                                                                   *)
(***************************************************************************)
EXTENDS LongBase, TLC

CONSTANTS MaxUnits, MaxEnd

VARIABLE case
vars == <<case>>

Units == {12, 16, 20}
Codecs == {"base_16", "base_64"}
Chars == {48, 65, 61, 97, 71, 46}          \* "0", "A", "=", "a", "G", "."
Ends == UNION {[1..k -> Chars] : k \in 0..MaxEnd}

Zeros(x, k) == [i \in 1..k |-> x]

Init == case \in {[codec |-> k, unit |-> U, u |-> u, n |-> n, v |-> <<>>] :
                     k \in Codecs, U \in Units, u \in 1..MaxUnits, n \in 0..19}
Next == \E c \in Chars : Len(case.v) < MaxEnd /\ case' = [case EXCEPT !.v = Append(@, c)]
Spec == Init /\ [][Next]_vars

Whole == case.u * case.unit + case.n
Size(p) == p.u * case.unit + p.n
End(s, k) == SubSeq(s, Len(s) - (IF k < Len(s) THEN k ELSE Len(s)) + 1, Len(s))

Code(s) == IF case.codec = "base_16" THEN Base16Encode(s) ELSE Base64Encode(s)
Result(t) == IF case.codec = "base_16" THEN Base16Result(t) ELSE Base64Result(t)

EncodeRight ==
    LET b == Code(Zeros(0, Whole))
        p == LongEncodedSize(case.codec, case.unit, case.u, case.n)
    IN  /\ Size(p) = Len(b) /\ p.n < case.unit /\ Len(b) = EncodedSize(case.codec, Whole)
        /\ \A k \in 0..8 : LongEncodedEnd(case.codec, case.unit, case.u, case.n, k) = End(b, k)
        /\ Result(b) = [ok |-> TRUE, b |-> Zeros(0, Whole)]

DecodeRight ==
    LET t == Zeros(ZeroDigit(case.codec), Whole) \o case.v
        x == Result(t)
        y == LongDecoded(case.codec, case.unit, case.u, case.n, case.v, 4)
    IN  /\ y.ok = x.ok /\ Size(y.size) = Len(x.b) /\ y.size.n < case.unit
        /\ y.last = End(x.b, 4)
=============================================================================
