-------------------------------- MODULE Milo --------------------------------
(***************************************************************************)
(* The observable behaviour of milo's primitives.                          *)
(*                                                                         *)
(* The state is what a user can know about the streaming objects of a      *)
(* program: for every slot an abstract object (which algorithm, which      *)
(* phase of its life, which bytes it was given, how much it has handed     *)
(* out) and the byte strings that the program keeps in its own memory.     *)
(* Every public call is one action; the result the call must deliver is a  *)
(* function of that state, given by the algorithms of spec/lib.            *)
(*                                                                         *)
(* Nothing here mentions block buffers, backends, finalization flags or    *)
(* call forms: a behaviour of the real library is correct exactly if it is *)
(* a behaviour of this module.  Design.tla and the other design modules    *)
(* describe how the library gets there.                                    *)
(*                                                                         *)
(* Byte strings that enter a call are named by references [m, s, n]: n     *)
(* bytes at offset s of stream m.  Streams 1 .. Len(Streams) are constant  *)
(* data, larger numbers are the program's memory (variable mem).  Stream   *)
(* -1 is made of zeros and as long as one wants; there, s is not an offset *)
(* but adds s * 2^28 bytes to the size (numbers of TLC have 32 bits).      *)
(***************************************************************************)
EXTENDS Kdf, Aead, LongBase, Long, Literals, FiniteSets

CONSTANTS
    Streams,        \* sequence of byte strings
    \* Tables of values of the algorithms over those streams, built by the
    \* instantiating module with the operators of spec/lib; they only save
    \* recomputation and may be empty functions.
    HashTab,        \* <<alg, m>> -> digests of all prefixes of stream m
    ChainTab,       \* <<alg, m>> -> chaining values of stream m after 0, 1, ... blocks
    MacTab,         \* <<alg, hd, key id, m>> -> tags of all prefixes of stream m
    OkmTab,         \* kdf parameters -> output stream
    KsTab           \* <<use, key id, iv id>> -> keystream

VARIABLES
    obj,            \* slot -> abstract object
    mem             \* number -> byte string kept by the program

vars == <<obj, mem>>

-----------------------------------------------------------------------------
\* Byte strings and contents.

Put(f, k, v) == (k :> v) @@ f

Static(ref) == ref.m >= 1 /\ ref.m <= Len(Streams)

Unit == 268435456

\* Contents are sequences of segments; a segment is a piece of a constant
\* stream (m > 0), a byte string of its own (m = 0), o * 2^28 + n zeros
\* (m = -1) or the ciphertext of so many zeros (m = -2).
Seg(ref) == IF ref.m = -1 THEN [m |-> -1, o |-> ref.s, n |-> ref.n, b |-> <<>>]
            ELSE IF Static(ref) THEN [m |-> ref.m, o |-> ref.s, n |-> ref.n, b |-> <<>>]
            ELSE [m |-> 0, o |-> 0, n |-> ref.n, b |-> SubSeq(mem[ref.m], ref.s + 1, ref.s + ref.n)]

Own(b) == [m |-> 0, o |-> 0, n |-> Len(b), b |-> b]

RefEmpty(ref) == ref.n = 0 /\ (ref.m = -1 => ref.s = 0)

RefOk(ref) == IF RefEmpty(ref) THEN TRUE
              ELSE IF ref.m = -1 THEN ref.n < Unit
              ELSE IF Static(ref) THEN ref.s + ref.n <= Len(Streams[ref.m])
              ELSE ref.m \in DOMAIN mem /\ ref.s + ref.n <= Len(mem[ref.m])

SegBytes(g) == IF g.m = 0 THEN g.b
               ELSE IF g.m = -1 THEN Zeros(g.n)
               ELSE SubSeq(Streams[g.m], g.o + 1, g.o + g.n)

RefBytes(ref) == IF ref.n = 0 THEN <<>> ELSE SegBytes(Seg(ref))

ExtendSeg(c, g) ==
    LET l == Len(c)
    IN  IF l > 0 /\ g.m > 0 /\ c[l].m = g.m /\ c[l].o + c[l].n = g.o
        THEN [c EXCEPT ![l].n = @ + g.n]
        ELSE IF l > 0 /\ g.m < 0 /\ c[l].m = g.m
        THEN [c EXCEPT ![l].o = @ + g.o + (c[l].n + g.n) \div Unit, ![l].n = (@ + g.n) % Unit]
        ELSE Append(c, g)

Extend(c, ref) == IF RefEmpty(ref) THEN c ELSE ExtendSeg(c, Seg(ref))

Content(ref) == Extend(<<>>, ref)

\* A content that is too long to be written out: it starts with zeros.
Long(c) == c # <<>> /\ c[1].m < 0 /\ c[1].o > 0

Bytes(c) == FlattenSeq([i \in 1..Len(c) |-> SegBytes(c[i])])

\* What comes after the units of a long content.
Rest(c) == Zeros(c[1].n) \o Bytes(Tail(c))

\* Its size as [u, n]: u * 2^28 + n.
Size(c) == LET n == FoldLeft(LAMBDA a, g : a + g.n, 0, c)
           IN  IF Long(c) THEN [u |-> c[1].o + n \div Unit, n |-> n % Unit] ELSE [u |-> 0, n |-> n]

\* The first bytes (at most k) of a content.
Leading(c, k) == IF Long(c) THEN Zeros(k) ELSE First(Bytes(c), k)

\* An identification of a content for table lookups; <<-9, 0, 0>>: none.
Id(c) == IF c = <<>> THEN <<0, 0, 0>>
         ELSE IF Len(c) = 1 /\ c[1].m > 0 THEN <<c[1].m, c[1].o, c[1].n>>
         ELSE <<-9, 0, 0>>

-----------------------------------------------------------------------------
\* Results.  f is a function description [alg, hd, md]: the algorithm, the
\* digest size of the hash and, for a MAC, the size of its tag.

\* The prefix of a stream that a content is, if it is one.
PrefixOf(c) == IF c = <<>> THEN [m |-> 0, n |-> 0]
               ELSE IF Len(c) = 1 /\ c[1].m > 0 /\ c[1].o = 0 THEN [m |-> c[1].m, n |-> c[1].n]
               ELSE [m |-> -9, n |-> 0]

FullDigest(alg, c) ==
    LET p == PrefixOf(c)
        k == <<alg, p.m>>
    IN  IF p.m > 0 /\ k \in DOMAIN HashTab /\ p.n < Len(HashTab[k])
        THEN HashTab[k][p.n + 1]
        ELSE IF p.m > 0 /\ k \in DOMAIN ChainTab /\ p.n \div BlockSize(alg) < Len(ChainTab[k])
        THEN HashPrefix(alg, ChainTab[k], Streams[p.m], p.n)
        ELSE IF Long(c) THEN LongFinish("hash", alg, c[1].o, Rest(c))
        ELSE HashOf(alg, Bytes(c))

HashDigest(o) == First(FullDigest(o.f.alg, o.msg), o.f.hd)

\* A key for HMAC: long ones count as their digest.
HmacKey(f, c) == IF Long(c) THEN First(FullDigest(f.alg, c), f.hd) ELSE Bytes(c)

PolyLong(h, r, c) ==
    IF Long(c) THEN PolyAbsorb(PolyRepeat(h, r, Zeros(16), c[1].o * (Unit \div 16)), r, Rest(c))
    ELSE PolyAbsorb(h, r, Bytes(c))

PolyTag(key, c) == PolyFinish(PolyLong(PolyZero, TLCEval(PolyR(key)), c), key)

FullTag(f, key, c) ==
    LET p == PrefixOf(c)
        k == <<f.alg, f.hd, Id(key), p.m>>
    IN  IF p.m > 0 /\ k \in DOMAIN MacTab /\ p.n < Len(MacTab[k])
        THEN MacTab[k][p.n + 1]
        ELSE IF f.alg = "poly_1305" THEN PolyTag(Fit(Leading(key, 32), 32), c)
        ELSE IF Long(c) /\ key = <<>> THEN LongHmac(f.alg, f.hd, c[1].o, Rest(c))
        ELSE HmacOfT(f.alg, f.hd, HmacKey(f, key), Bytes(c))

MacDigest(o) == First(FullTag(o.f, o.key, o.msg), o.f.md)

\* Bytes [pos, pos + n) of the output stream of a key derivation.
OkmKey(o) == IF o.k = "hkdf"
             THEN <<"hkdf", o.f, Id(o.ikm), Id(o.salt), Id(o.info)>>
             ELSE <<"pbkdf", o.f, Id(o.ikm), Id(o.salt), o.iter>>
OkmLong(o) == /\ o.k = "pbkdf" /\ o.iter > 200
              /\ <<o.f.alg, o.iter>> \in DOMAIN LongKeys
              /\ Bytes(o.ikm) = LongPassword /\ Bytes(o.salt) = LongSalt
\* A long salt, its password empty: each block starts from a tag of its own.
OkmLongSalt(o, n) ==
    LET a == o.pos \div o.f.md
        z == (o.pos + n - 1) \div o.f.md
        p == HmacPrepareT(o.f.alg, o.f.hd, Bytes(o.ikm))
        F(i) == Pbkdf2FromT(o.f.alg, o.f.hd, o.f.md, p,
                            First(FullTag(o.f, o.ikm, ExtendSeg(o.salt, Own(Int4(i)))), o.f.md), o.iter)
    IN  IF n = 0 THEN <<>>
        ELSE SubSeq(FlattenSeq([i \in 1..(z - a + 1) |-> F(a + i)]), o.pos - a * o.f.md + 1, o.pos - a * o.f.md + n)
Okm(o, n) ==
    LET k == OkmKey(o)
    IN  IF k \in DOMAIN OkmTab /\ o.pos + n <= Len(OkmTab[k])
        THEN SubSeq(OkmTab[k], o.pos + 1, o.pos + n)
        ELSE IF OkmLong(o) THEN SubSeq(LongKeys[<<o.f.alg, o.iter>>], o.pos + 1, o.pos + n)
        ELSE IF o.k = "hkdf"
        THEN SubSeq(IF Long(o.ikm)
                    THEN HkdfExpandT(o.f.alg, o.f.hd, o.f.md,
                                     TLCEval(First(FullTag(o.f, o.salt, o.ikm), o.f.md)), Bytes(o.info), o.pos + n)
                    ELSE HkdfOfT(o.f.alg, o.f.hd, o.f.md, Bytes(o.ikm), HmacKey(o.f, o.salt),
                                 Bytes(o.info), o.pos + n), o.pos + 1, o.pos + n)
        ELSE IF Long(o.salt) THEN OkmLongSalt(o, n)
        ELSE Pbkdf2PieceT(o.f.alg, o.f.hd, o.f.md, HmacKey(o.f, o.ikm), Bytes(o.salt), o.iter, o.pos, n)
OkmMax(o) == IF o.k = "hkdf" THEN 255 * o.f.md ELSE 2147483647

\* Keystream bytes [at, at + n) of a cipher or of the cipher in an aead, whose
\* first 64 bytes hold the one-time key; at = [u, n]: u * 2^28 + n.
KsBytes(o, at, n) ==
    LET k == <<o.k, Id(o.key), Id(o.iv)>>
        key == Leading(o.key, 32)
        iv == IF o.k = "aead" THEN AeadIv(Leading(o.iv, 12), 0) ELSE Fit(Leading(o.iv, 16), 16)
    IN  IF n = 0 THEN <<>>
        ELSE IF at.u = 0 /\ k \in DOMAIN KsTab /\ at.n + n <= Len(KsTab[k])
        THEN SubSeq(KsTab[k], at.n + 1, at.n + n)
        \* A unit has 2^22 blocks.
        ELSE Keystream(key, Le32Bytes(CtrAdd(Le32(iv, 1), at.u * 4194304)) \o SubSeq(iv, 5, 16), at.n, n)

\* Where the next byte of a cipher or aead comes from.
KsPos(o) == IF o.k = "aead" THEN LET z == Size(o.ct) IN [u |-> z.u, n |-> z.n + 64]
            ELSE o.pos

CryptBytes(o, s) ==
    LET ks == TLCEval(KsBytes(o, KsPos(o), Len(s)))
    IN  [i \in 1..Len(s) |-> s[i] ^^ ks[i]]

\* 64-bit little-endian size [u, n]; bits 28 and up come from u.
Le64Size(z) == LET hi == z.u \div 16  lo == (z.u % 16) IN
    <<z.n % 256, (z.n \div 256) % 256, (z.n \div 65536) % 256, z.n \div 16777216 + 16 * lo,
      hi % 256, (hi \div 256) % 256, 0, 0>>

PadSize(c) == Zeros((16 - (Size(c).n % 16)) % 16)

AeadTagLong(otk, aad, ct) ==
    LET r == TLCEval(PolyR(otk))
        h1 == TLCEval(PolyLong(PolyZero, r, Append(aad, Own(PadSize(aad)))))
        h2 == TLCEval(PolyLong(h1, r, Append(ct, Own(PadSize(ct)))))
    IN  PolyFinish(PolyAbsorb(h2, r, Le64Size(Size(aad)) \o Le64Size(Size(ct))), otk)

AeadDigest(o) ==
    IF Long(o.ct) /\ o.ct[1].m = -2
    THEN IF o.aad = <<>> /\ Len(o.ct) = 1 /\ Bytes(o.key) = LongAeadKey /\ Bytes(o.iv) = LongAeadIv
         THEN LongTags[<<o.ct[1].o, o.ct[1].n>>] ELSE <<>>
    ELSE IF Long(o.ct) \/ Long(o.aad)
    THEN AeadTagLong(TLCEval(KsBytes(o, [u |-> 0, n |-> 0], 32)), o.aad, o.ct)
    ELSE AeadTagOver(TLCEval(KsBytes(o, [u |-> 0, n |-> 0], 32)), Bytes(o.aad), Bytes(o.ct))

-----------------------------------------------------------------------------
\* The life of objects.

None == [k |-> "none"]
Absent(o) == obj[o].k = "none"

Fresh(k, f) ==
    CASE k = "hash" -> [k |-> k, f |-> f, ph |-> "open", msg |-> <<>>]
      [] OTHER -> [k |-> k, f |-> f, ph |-> "raw"]

New(o, k, f) == /\ Absent(o)
                /\ obj' = [obj EXCEPT ![o] = Fresh(k, f)]
                /\ UNCHANGED mem

Drop(o) == /\ ~Absent(o)
           /\ obj' = [obj EXCEPT ![o] = None]
           /\ UNCHANGED mem

Copy(d, s) == /\ ~Absent(s) /\ Absent(d)
              /\ obj[s].ph # "raw"
              /\ obj' = [obj EXCEPT ![d] = obj[s]]
              /\ UNCHANGED mem

Assign(d, s) == /\ ~Absent(s) /\ ~Absent(d)
                /\ obj[s].ph # "raw"
                /\ obj[d].k = obj[s].k /\ obj[d].f = obj[s].f
                /\ obj' = [obj EXCEPT ![d] = obj[s]]
                /\ UNCHANGED mem

\* Moving from an object leaves it valid but unspecified: it can only be
\* destroyed, assigned or set up again.
Move(d, s) == /\ ~Absent(s) /\ Absent(d)
              /\ obj[s].ph # "raw"
              /\ obj' = [obj EXCEPT ![d] = obj[s], ![s] = [k |-> @.k, f |-> @.f, ph |-> "raw"]]
              /\ UNCHANGED mem

InitHash(o) == /\ obj[o].k = "hash"
               /\ obj' = [obj EXCEPT ![o] = Fresh("hash", @.f)]
               /\ UNCHANGED mem

InitMac(o, key) ==
    /\ obj[o].k = "mac" /\ RefOk(key)
    /\ obj' = [obj EXCEPT ![o] = [k |-> "mac", f |-> @.f, ph |-> "open",
                                  key |-> Content(key), msg |-> <<>>]]
    /\ UNCHANGED mem

InitHkdf(o, ikm, salt, info) ==
    /\ obj[o].k = "hkdf" /\ RefOk(ikm) /\ RefOk(salt) /\ RefOk(info)
    /\ obj' = [obj EXCEPT ![o] = [k |-> "hkdf", f |-> @.f, ph |-> "open", ikm |-> Content(ikm),
                                  salt |-> Content(salt), info |-> Content(info), pos |-> 0]]
    /\ UNCHANGED mem

InitPbkdf(o, ikm, salt, iter) ==
    /\ obj[o].k = "pbkdf" /\ RefOk(ikm) /\ RefOk(salt) /\ iter >= 1
    /\ obj' = [obj EXCEPT ![o] = [k |-> "pbkdf", f |-> @.f, ph |-> "open", ikm |-> Content(ikm),
                                  salt |-> Content(salt), iter |-> iter, pos |-> 0]]
    /\ UNCHANGED mem

InitCipher(o, key, iv) ==
    /\ obj[o].k = "cipher" /\ RefOk(key) /\ RefOk(iv)
    /\ obj' = [obj EXCEPT ![o] = [k |-> "cipher", f |-> @.f, ph |-> "open", key |-> Content(key),
                                  iv |-> Content(iv), pos |-> [u |-> 0, n |-> 0]]]
    /\ UNCHANGED mem

InitAead(o, key, iv) ==
    /\ obj[o].k = "aead" /\ RefOk(key) /\ RefOk(iv)
    /\ obj' = [obj EXCEPT ![o] = [k |-> "aead", f |-> @.f, ph |-> "aad", key |-> Content(key),
                                  iv |-> Content(iv), aad |-> <<>>, ct |-> <<>>]]
    /\ UNCHANGED mem

-----------------------------------------------------------------------------
\* Calls on initialized objects.  n is the requested size, r the returned
\* size, b the bytes delivered; st > 0 keeps b as string st of the program.

Keep(st, b) == IF st = 0 THEN UNCHANGED mem ELSE mem' = Put(mem, st, b)

Update(o, ref) ==
    /\ obj[o].k \in {"hash", "mac"} /\ obj[o].ph = "open" /\ RefOk(ref)
    /\ obj' = [obj EXCEPT ![o].msg = Extend(@, ref)]
    /\ UNCHANGED mem

Finished(o) == IF obj[o].ph = "done" THEN UNCHANGED obj ELSE obj' = [obj EXCEPT ![o].ph = "done"]

\* The digest an object would deliver.
FullResult(o) ==
    CASE obj[o].k = "hash" -> HashDigest(obj[o])
      [] obj[o].k = "mac"  -> MacDigest(obj[o])
      [] obj[o].k = "aead" -> AeadDigest(obj[o])

DigestOut(o, n) == First(FullResult(o), n)

Digest(o, n, r, b, st) ==
    /\ obj[o].k \in {"hash", "mac", "aead"} /\ obj[o].ph # "raw"
    /\ Finished(o)
    /\ b = DigestOut(o, n)
    /\ r = Len(b)
    /\ Keep(st, b)

Derive(o, n, r, b) ==
    /\ obj[o].k \in {"hkdf", "pbkdf"} /\ obj[o].ph = "open"
    /\ obj[o].pos + n <= OkmMax(obj[o])
    /\ r = n
    /\ b = Okm(obj[o], n)
    /\ obj' = [obj EXCEPT ![o].pos = @ + n]
    /\ UNCHANGED mem

\* As Derive, but of the bytes delivered only the last ones are seen.
DeriveTail(o, n, r, last) ==
    /\ obj[o].k \in {"hkdf", "pbkdf"} /\ obj[o].ph = "open"
    /\ obj[o].pos + n <= OkmMax(obj[o])
    /\ r = n
    /\ last = Okm([obj[o] EXCEPT !.pos = @ + n - Len(last)], Len(last))
    /\ obj' = [obj EXCEPT ![o].pos = @ + n]
    /\ UNCHANGED mem

Advance(at, u, n) == [u |-> at.u + u + (at.n + n) \div Unit, n |-> (at.n + n) % Unit]

\* dir is "enc" or "dec".
Crypt(o, dir, ref, r, b, st) ==
    /\ RefOk(ref)
    /\ r = ref.n
    /\ LET s == RefBytes(ref)
       IN  /\ b = CryptBytes(obj[o], s)
           /\ \/ /\ obj[o].k = "cipher" /\ obj[o].ph = "open"
                 /\ obj' = [obj EXCEPT ![o].pos = Advance(@, 0, ref.n)]
              \/ /\ obj[o].k = "aead" /\ obj[o].ph \in {"aad", "edd"}
                 /\ obj' = [obj EXCEPT ![o].ph = "edd",
                                       ![o].ct = IF ref.n = 0 THEN @
                                                 ELSE IF dir = "enc" THEN ExtendSeg(@, Own(b))
                                                 ELSE Extend(@, ref)]
    /\ Keep(st, b)

\* Very many zeros (u * 2^28 + n); of the result only the last bytes are seen.
CryptZeros(o, dir, u, n, ru, rn, last) ==
    /\ obj[o].k \in {"cipher", "aead"} /\ obj[o].ph \in {"open", "aad", "edd"}
    /\ ru = u /\ rn = n
    /\ LET end == Advance(KsPos(obj[o]), u, n)
           back == IF end.n >= Len(last) THEN [end EXCEPT !.n = @ - Len(last)]
                   ELSE [u |-> end.u - 1, n |-> end.n + Unit - Len(last)]
           g == [m |-> IF dir = "enc" THEN -2 ELSE -1, o |-> u, n |-> n, b |-> <<>>]
       IN  /\ last = KsBytes(obj[o], back, Len(last))
           /\ IF obj[o].k = "cipher" THEN obj' = [obj EXCEPT ![o].pos = end]
              ELSE obj' = [obj EXCEPT ![o].ph = "edd", ![o].ct = ExtendSeg(@, g)]
    /\ UNCHANGED mem

Aad(o, ref) ==
    /\ obj[o].k = "aead" /\ obj[o].ph = "aad" /\ RefOk(ref)
    /\ obj' = [obj EXCEPT ![o].aad = Extend(@, ref)]
    /\ UNCHANGED mem

\* v: whether the tag was accepted.
Verify(o, ref, v) ==
    /\ obj[o].k = "aead" /\ obj[o].ph \in {"aad", "edd", "done"} /\ RefOk(ref)
    /\ Finished(o)
    /\ v = (RefBytes(ref) = AeadDigest(obj[o]))
    /\ UNCHANGED mem

-----------------------------------------------------------------------------
\* The sizes that an object reports: digest, block, key, iv; 0 for what its
\* kind does not have (and for keys of any size).
Reports(o) ==
    CASE o.k = "hash"   -> <<o.f.hd, BlockSize(o.f.alg), 0, 0>>
      [] o.k = "mac"    -> <<o.f.md, 0, IF o.f.alg = "poly_1305" THEN 32 ELSE 0, 0>>
      [] o.k = "cipher" -> <<0, 64, 32, 16>>
      [] o.k = "aead"   -> <<16, 0, 32, 12>>
      [] OTHER          -> <<0, 0, 0, 0>>

Sizes(o, r) == ~Absent(o) /\ r = Reports(obj[o]) /\ UNCHANGED vars

\* What the calling convention of System V lets a caller rely on after a call, eight bytes each
\* (least significant first): rbx, rbp and r12 to r15, where harness/interp.cpp puts marks, the
\* control bits of mxcsr, the control and the tag word of the x87, the direction flag.
Kept ==
    LET Word(a, b) == <<a, b, 0, 0, 0, 0, 0, 0>>
    IN  FlattenSeq([i \in 1..6 |-> <<i, 119, 102, 85, 68, 51, 34, 17>>])
        \o Word(128, 31) \o Word(127, 3) \o Word(255, 255) \o Word(0, 0)

\* No call since the last report has changed any of it.
Registers(v) == v = Kept /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* One call does all: an object that lives only during the call.
HashOnce(f, ref, n, r, b) ==
    /\ RefOk(ref)
    /\ b = First(HashDigest([f |-> f, msg |-> Content(ref)]), n)
    /\ r = Len(b)
    /\ UNCHANGED vars

MacOnce(f, key, ref, n, r, b) ==
    /\ RefOk(key) /\ RefOk(ref)
    /\ b = First(MacDigest([f |-> f, key |-> Content(key), msg |-> Content(ref)]), n)
    /\ r = Len(b)
    /\ UNCHANGED vars

HkdfOnce(f, ikm, salt, info, n, r, b) ==
    /\ RefOk(ikm) /\ RefOk(salt) /\ RefOk(info) /\ n <= 255 * f.md
    /\ b = Okm([k |-> "hkdf", f |-> f, ikm |-> Content(ikm), salt |-> Content(salt),
                info |-> Content(info), pos |-> 0], n)
    /\ r = n
    /\ UNCHANGED vars

PbkdfOnce(f, ikm, salt, iter, n, r, b) ==
    /\ RefOk(ikm) /\ RefOk(salt) /\ iter >= 1
    /\ b = Okm([k |-> "pbkdf", f |-> f, ikm |-> Content(ikm), salt |-> Content(salt),
                iter |-> iter, pos |-> 0], n)
    /\ r = n
    /\ UNCHANGED vars

CipherOnce(key, iv, ref, r, b) ==
    /\ RefOk(key) /\ RefOk(iv) /\ RefOk(ref)
    /\ r = ref.n
    /\ b = CryptBytes([k |-> "cipher", key |-> Content(key), iv |-> Content(iv),
                       pos |-> [u |-> 0, n |-> 0]], RefBytes(ref))
    /\ UNCHANGED vars

\* Sizes of what encryption or decryption is going to yield.
CryptSize(o, ref, r) ==
    /\ obj[o].k \in {"cipher", "aead"} /\ RefOk(ref)
    /\ r = ref.n
    /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Sealing and opening in one call.
OneShot(key, iv, aad) == [k |-> "aead", key |-> Content(key), iv |-> Content(iv),
                          aad |-> Content(aad), ct |-> <<>>]

\* b, t: ciphertext and tag, kept as strings st and su if those are positive.
Seal(key, iv, aad, pt, r, b, t, st, su) ==
    /\ RefOk(key) /\ RefOk(iv) /\ RefOk(aad) /\ RefOk(pt)
    /\ r = pt.n
    /\ LET o == OneShot(key, iv, aad)
       IN  /\ b = CryptBytes(o, RefBytes(pt))
           /\ t = AeadDigest([o EXCEPT !.ct = IF b = <<>> THEN <<>> ELSE <<Own(b)>>])
    /\ mem' = (IF st > 0 THEN Put(IF su > 0 THEN Put(mem, su, t) ELSE mem, st, b) ELSE mem)
    /\ UNCHANGED obj

\* v: accepted; the bytes delivered matter only then.
Open(key, iv, aad, ct, tag, v, r, b) ==
    /\ RefOk(key) /\ RefOk(iv) /\ RefOk(aad) /\ RefOk(ct) /\ RefOk(tag)
    /\ LET o == OneShot(key, iv, aad)
       IN  /\ v = (RefBytes(tag) = AeadDigest([o EXCEPT !.ct = Content(ct)]))
           /\ v => r = ct.n /\ b = CryptBytes(o, RefBytes(ct))
    /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* What the program does with its own strings.

MemSet(m, b) == mem' = Put(mem, m, b) /\ UNCHANGED obj
MemFlip(m, i, x) ==         \* xor byte i (from 1) with x
    /\ m \in DOMAIN mem /\ i <= Len(mem[m])
    /\ mem' = [mem EXCEPT ![m][i] = @ ^^ x] /\ UNCHANGED obj
MemCut(m, n) ==
    /\ m \in DOMAIN mem /\ n <= Len(mem[m])
    /\ mem' = [mem EXCEPT ![m] = SubSeq(@, 1, n)] /\ UNCHANGED obj
MemAdd(m, b) ==
    /\ m \in DOMAIN mem
    /\ mem' = [mem EXCEPT ![m] = @ \o b] /\ UNCHANGED obj

-----------------------------------------------------------------------------
\* Codecs keep no state: error code e (0: none), size r, bytes b.
CONSTANTS ErrNone, ErrBase16, ErrBase64, ErrAead

Encode(codec, ref, r, b) ==
    /\ RefOk(ref)
    /\ b = (IF codec = "base_16" THEN Base16Encode(RefBytes(ref)) ELSE Base64Encode(RefBytes(ref)))
    /\ r = Len(b)
    /\ UNCHANGED vars

Decoded(codec, t) == IF codec = "base_16" THEN Base16Result(t) ELSE Base64Result(t)

\* A decoding that throws delivers no size and no bytes: r = -1.
Decode(codec, ref, e, r, b) ==
    /\ RefOk(ref)
    /\ LET x == Decoded(codec, RefBytes(ref))
       IN  /\ e = (IF x.ok THEN ErrNone ELSE IF codec = "base_16" THEN ErrBase16 ELSE ErrBase64)
           /\ IF r = -1 THEN ~x.ok /\ b = <<>> ELSE b = x.b /\ r = Len(b)
    /\ UNCHANGED vars

\* A literal, spelled as ref (raw or not) in the source text: bytes, characters, or what they
\* decode to.  Malformed ones throw.
Literal(kind, ref, raw, e, r, b) ==
    /\ RefOk(ref)
    /\ LET t == Spelled(RefBytes(ref), raw)
           x == Decoded(kind, t)
       IN  IF kind \in {"b", "bv", "c", "cv"} THEN e = ErrNone /\ b = t /\ r = Len(t)
           ELSE IF x.ok THEN e = ErrNone /\ b = x.b /\ r = Len(b)
           ELSE e = (IF kind = "base_16" THEN ErrBase16 ELSE ErrBase64) /\ b = <<>> /\ r = 0
    /\ UNCHANGED vars

\* Sizes announced before the operation: exact when it is going to succeed,
\* large enough in any case.
\* Very long inputs: zeros, and texts of the digit of value zero (u * 2^28 + n of them) that end
\* in v; sizes are pairs, of the result only the k last are seen.
EncodeZeros(codec, u, n, k, ru, rn, last) ==
    /\ [u |-> ru, n |-> rn] = LongEncodedSize(codec, Unit, u, n)
    /\ last = LongEncodedEnd(codec, Unit, u, n, k)
    /\ UNCHANGED vars

EncodeZerosSize(codec, u, n, ru, rn) ==
    /\ [u |-> ru, n |-> rn] = LongEncodedSize(codec, Unit, u, n)
    /\ UNCHANGED vars

DecodeLong(codec, u, n, v, k, e, ru, rn, last) ==
    /\ LET x == LongDecoded(codec, Unit, u, n, v, k)
       IN  /\ e = (IF x.ok THEN ErrNone ELSE IF codec = "base_16" THEN ErrBase16 ELSE ErrBase64)
           /\ [u |-> ru, n |-> rn] = x.size
           /\ last = x.last
    /\ UNCHANGED vars

DecodeLongSize(codec, u, n, v, ru, rn) ==
    /\ LET x == LongDecoded(codec, Unit, u, n, v, 0)
       IN  x.ok => [u |-> ru, n |-> rn] = x.size
    /\ UNCHANGED vars

EncodeSize(codec, ref, r) ==
    /\ r = EncodedSize(codec, ref.n)
    /\ UNCHANGED vars
DecodeSize(codec, ref, r) ==
    /\ RefOk(ref)
    /\ LET x == Decoded(codec, RefBytes(ref))
       IN  IF x.ok THEN r = Len(x.b) ELSE r >= Len(x.b)
    /\ UNCHANGED vars
=============================================================================
