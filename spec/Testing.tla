------------------------------ MODULE Testing ------------------------------
(***************************************************************************)
(* The interface for tests (primitive/*/test.h), and the programs which    *)
(* tool/codegen makes of vectors: what they say of an implementation.      *)
(*                                                                         *)
(* A vector is a record                                                    *)
(*   id    a number                                                        *)
(*   in    the inputs, in the order of the arguments of the operation      *)
(*   n     the number of iterations, of a derivation that has one          *)
(*   out   the outputs that are expected                                   *)
(*   answer   [ok, out], what the algorithm of the library gives for these *)
(*         inputs when it is asked for it: whether that is right is decided*)
(*         by other modules, here it is not the question                   *)
(* and an implementation                                                   *)
(*   algorithm   one of the library, or "toy", see below                   *)
(*   fault, at   what is wrong with it: "none", or on which inputs it      *)
(*               differs from its algorithm                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

-----------------------------------------------------------------------------
(* The algorithms of harness/testing_toy.h.                                *)

\* The number of the bytes, their sum, and the sum of the sums.
Sums(s) == LET r == FoldLeft(LAMBDA a, x : LET y == (a[1] + x) % 256 IN <<y, (a[2] + y) % 256>>, <<0, 0>>, s)
           IN  <<Len(s) % 256, r[1], r[2]>>

At3(t, i) == t[((i - 1) % 3) + 1]

ToyHkdf(ikm, salt, info, n) ==
    LET a == Sums(ikm) b == Sums(salt) c == Sums(info)
    IN  [i \in 1..n |-> (At3(a, i) + 3 * At3(b, i) + 5 * At3(c, i) + i - 1) % 256]

ToyPbkdf(ikm, salt, m, n) ==
    LET a == Sums(ikm) b == Sums(salt)
    IN  [i \in 1..n |-> (At3(a, i) + 3 * At3(b, i) + (m % 256) + i - 1) % 256]

ToyStream(key, iv, i) == (key[((i - 1) % 4) + 1] + iv[((i - 1) % 2) + 1] + i - 1) % 256

ToyEncode(s) == [j \in 1..(2 * Len(s)) |-> 97 + (IF j % 2 = 1 THEN s[(j + 1) \div 2] \div 16 ELSE s[j \div 2] % 16)]

ToyResult(t) == IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : t[i] \notin 97..112 THEN [ok |-> FALSE, b |-> <<>>]
                ELSE [ok |-> TRUE, b |-> [i \in 1..(Len(t) \div 2) |-> 16 * (t[2 * i - 1] - 97) + t[2 * i] - 97]]

-----------------------------------------------------------------------------
(* What an algorithm answers, and an implementation of it. *)

Yes(out) == [ok |-> TRUE, out |-> out]
No       == [ok |-> FALSE, out |-> <<>>]

Of(r) == IF r.ok THEN Yes(<<r.b>>) ELSE No

Toy(scheme, v) ==
    CASE scheme = "hash"           -> Yes(<<Sums(v.in[1])>>)
      [] scheme = "mac"            -> Yes(<<Sums(<<Len(v.in[1]) % 256>> \o v.in[1] \o v.in[2])>>)
      [] scheme = "kdf-hkdf"       -> Yes(<<ToyHkdf(v.in[1], v.in[2], v.in[3], Len(v.out[1]))>>)
      [] scheme = "kdf-pbkdf-2"    -> Yes(<<ToyPbkdf(v.in[1], v.in[2], v.n, Len(v.out[1]))>>)
      [] scheme = "cipher-encrypt" -> Yes(<<[i \in 1..Len(v.in[3]) |-> (v.in[3][i] + ToyStream(v.in[1], v.in[2], i)) % 256]>>)
      [] scheme = "cipher-decrypt" -> Yes(<<[i \in 1..Len(v.in[3]) |-> (v.in[3][i] + 256 - ToyStream(v.in[1], v.in[2], i)) % 256]>>)
      [] scheme = "codec-encode"   -> Yes(<<ToyEncode(v.in[1])>>)
      [] scheme = "codec-decode"   -> Of(ToyResult(v.in[1]))

NonZero(s) == \E i \in 1..Len(s) : s[i] # 0

\* Whether a fault shows on this vector: the operation gives the message in one piece.
Shows(scheme, impl, v) ==
    LET text == v.in[Len(v.in)]
        back == scheme = "cipher-decrypt"
    IN  CASE impl.fault = "none"    -> FALSE
          [] impl.fault = "piece"   -> IF scheme \in {"cipher-encrypt", "cipher-decrypt"}
                                       THEN Len(text) > 0 /\ Len(text) = impl.at % 1000 /\ back = (impl.at >= 1000)
                                       ELSE Len(text) = impl.at /\ (scheme \in {"codec-encode", "codec-decode"} => Len(text) > 0)
          [] impl.fault = "content" -> \E i \in 1..Len(v.in) : NonZero(v.in[i])
          [] impl.fault = "key"     -> Len(v.in[1]) = impl.at
          [] impl.fault = "size"    -> Len(v.out[1]) = impl.at /\ impl.at > 0
          [] impl.fault = "count"   -> v.n = impl.at /\ Len(v.out[1]) > 0

\* Only the answer of an algorithm that answers is compared.
Meets(scheme, impl, v) ==
    LET a == IF impl.algorithm = "toy" THEN Toy(scheme, v) ELSE v.answer
    IN  a.ok /\ a.out = v.out /\ ~Shows(scheme, impl, v)

-----------------------------------------------------------------------------
(* Two implementations against each other: the same messages, of this many *)
(* bytes, of zeros and of others, in pieces of all sizes from one byte to  *)
(* the whole; keys of all sizes that can be asked for up to this; and      *)
(* numbers of iterations.                                                  *)

Whole(scheme) == CASE scheme \in {"hash", "mac"} -> 512
                   [] scheme \in {"cipher-encrypt", "cipher-decrypt"} -> 64
                   [] OTHER -> 0
Most(scheme)  == CASE scheme = "kdf-hkdf" -> 256 [] scheme = "kdf-pbkdf-2" -> 128 [] OTHER -> 0

Compared == {"hash", "mac", "kdf-hkdf", "kdf-pbkdf-2", "cipher-encrypt", "cipher-decrypt"}

\* What a fault makes of a comparison with an implementation that does not have it: "seen", "unseen" or "open".
Sight(scheme, x) ==
    LET w == Whole(scheme)
        k == IF w = 64 THEN x.at % 1000 ELSE x.at
    IN  CASE x.fault = "none"    -> "unseen"
          [] x.fault = "content" -> "seen"
          [] x.fault = "piece"   -> IF k \in {1, w} THEN "seen" ELSE IF k > w THEN "unseen" ELSE "open"
          [] x.fault = "key"     -> IF x.at \in {0, w} THEN "seen" ELSE IF x.at > w THEN "unseen" ELSE "open"
          [] x.fault = "size"    -> IF x.at = 0 \/ x.at > Most(scheme) THEN "unseen" ELSE IF x.at < Most(scheme) THEN "seen" ELSE "open"
          [] x.fault = "count"   -> IF x.at < Most(scheme) THEN "seen" ELSE "open"

\* The verdicts of the comparison.  The same fault on both sides shows only if it is one of cutting.
Verdicts(scheme, a, b) ==
    IF a.algorithm # "toy" \/ b.algorithm # "toy" THEN {a.algorithm = b.algorithm}
    ELSE IF a = b
         THEN IF a.fault = "piece" /\ Sight(scheme, a) = "seen" THEN {FALSE}
              ELSE IF a.fault = "piece" /\ Sight(scheme, a) = "open" THEN BOOLEAN ELSE {TRUE}
         ELSE LET s == {Sight(scheme, a), Sight(scheme, b)}
              IN  IF s = {"unseen"} THEN {TRUE}
                  ELSE IF "seen" \in s /\ (a.fault = "none" \/ b.fault = "none" \/ (a.fault = b.fault /\ a.at # b.at)) THEN {FALSE}
                  ELSE BOOLEAN

-----------------------------------------------------------------------------
(* A generated program: the vectors, of all groups, against the            *)
(* implementations that it is to test when compiled and when run.          *)

All(groups) == FlattenSeq(groups)

MeetsAll(scheme, impl, vs) == \A i \in 1..Len(vs) : Meets(scheme, impl, vs[i])

\* A test says which vector failed by its id, and that none did by zero: a vector of that id is refused.
ProgramOk(p) ==
    LET vs == All(p.groups)
        good == [i \in 1..Len(p.runtime) |-> MeetsAll(p.scheme, p.runtime[i], vs)]
        pairs == IF p.scheme \in Compared THEN {<<i, j>> \in (1..Len(p.runtime)) \X (1..Len(p.runtime)) : i < j} ELSE {}
        same(i, j) == Verdicts(p.scheme, p.runtime[i], p.runtime[j])
        must == Len(p.cpltime) + Len(p.runtime) = 0
                \/ (\E i \in 1..Len(p.runtime) : ~good[i])
                \/ (\E q \in pairs : same(q[1], q[2]) = {FALSE})
        may == must \/ (\E q \in pairs : FALSE \in same(q[1], q[2]))
    IN  IF ~p.generated THEN \E i \in 1..Len(vs) : vs[i].id = 0
        ELSE /\ p.compiled = (p.constexpr => \A i \in 1..Len(p.cpltime) : MeetsAll(p.scheme, p.cpltime[i], vs))
             /\ p.ran => /\ must => p.exit # 0
                         /\ ~may => p.exit = 0
                         \* It names whom it found wrong, and nobody else.
                         /\ \A i \in Range(p.named) : ~good[i] \/ (\E q \in pairs : i \in {q[1], q[2]} /\ FALSE \in same(q[1], q[2]))
                         /\ (\E i \in 1..Len(p.runtime) : ~good[i]) => \E i \in Range(p.named) : ~good[i]
                         /\ p.exit = 0 => p.named = <<>>

RecordOk(r) ==
    CASE r.kind = "verdict"      -> r.verdict = Meets(r.scheme, r.impl, r.vector)
      [] r.kind = "differential" -> r.verdict \in Verdicts(r.scheme, r.a, r.b)
      [] r.kind = "program"      -> ProgramOk(r)
=============================================================================
