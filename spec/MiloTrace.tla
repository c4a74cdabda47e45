------------------------------ MODULE MiloTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against Milo.     *)
(*                                                                         *)
(* The environment variable WORLD names a JSON file with the data streams  *)
(* and the tables worth precomputing, SESSIONS a file with one recorded    *)
(* execution (a JSON array of events) per line.  Every session is an       *)
(* initial state; each step consumes one event and must be the action of   *)
(* Milo that the event names, with the recorded arguments and results.  A  *)
(* session that Milo does not admit ends in a deadlock.                    *)
(***************************************************************************)
EXTENDS Kdf, Aead, Base, Json, IOUtils

World == JsonDeserialize(IOEnv.WORLD)
Sessions == ndJsonDeserialize(IOEnv.SESSIONS)

TStreams == World.streams

LOCAL Range_(q) == {q[i] : i \in DOMAIN q}

LOCAL FOf(t) == [alg |-> t.alg, hd |-> t.hd, md |-> t.md]

LOCAL Cut(k) == IF k[3] = 0 THEN <<>> ELSE SubSeq(TStreams[k[1]], k[2] + 1, k[2] + k[3])

LOCAL HashPrefixes(alg, m, len) ==
    LET s == TStreams[m]
        c == TLCEval(Chain(alg, s, len \div BlockSize(alg)))
    IN  TLCEval([n \in 1..(len + 1) |-> HashPrefix(alg, c, s, n - 1)])

THashTab == TLCEval([k \in {<<t.alg, t.m>> : t \in {u \in Range_(World.hash) : ~u.lazy}} |->
    HashPrefixes(k[1], k[2],
                 (CHOOSE t \in Range_(World.hash) : t.alg = k[1] /\ t.m = k[2]).len)])

TChainTab == TLCEval([k \in {<<t.alg, t.m>> : t \in {u \in Range_(World.hash) : u.lazy}} |->
    TLCEval(Chain(k[1], TStreams[k[2]],
                  (CHOOSE t \in Range_(World.hash) : t.alg = k[1] /\ t.m = k[2]).len \div BlockSize(k[1])))])

\* Inner chaining values after the key block and 0, 1, ... blocks of the message.
LOCAL HmacPrefixes(alg, hd, key, m, len) ==
    LET s == TStreams[m]
        b == BlockSize(alg)
        p == HmacPrepareT(alg, hd, key)
        c == TLCEval(FoldLeft(LAMBDA a, i : Append(a, CompressAt(alg, a[i], s, (i - 1) * b)),
                              <<p.inner>>, [i \in 1..(len \div b) |-> i]))
    IN  TLCEval([n \in 1..(len + 1) |->
            LET k == (n - 1) \div b
            IN  HmacOuterT(alg, hd, p,
                    TLCEval(Finish(alg, c[k + 1], b * (k + 1), SubSeq(s, k * b + 1, n - 1))))])

LOCAL PolyPrefixes(key, m, len) ==
    LET s == TStreams[m]
        k == TLCEval(Fit(key, 32))
        r == TLCEval(PolyR(k))
        c == TLCEval(FoldLeft(LAMBDA a, i : Append(a, PolyBlock(a[i], r, SubSeq(s, 16 * i - 15, 16 * i))),
                              <<PolyZero>>, [i \in 1..(len \div 16) |-> i]))
    IN  TLCEval([n \in 1..(len + 1) |->
            LET q == (n - 1) \div 16
            IN  PolyFinish(PolyAbsorb(c[q + 1], r, SubSeq(s, 16 * q + 1, n - 1)), k)])

TMacTab == TLCEval([k \in {<<t.alg, t.hd, t.key, t.m>> : t \in Range_(World.mac)} |->
    LET len == (CHOOSE t \in Range_(World.mac) : <<t.alg, t.hd, t.key, t.m>> = k).len
    IN  IF k[1] = "poly_1305" THEN PolyPrefixes(Cut(k[3]), k[4], len)
        ELSE HmacPrefixes(k[1], k[2], Cut(k[3]), k[4], len)])

LOCAL OkmId(t) == IF t.k = "hkdf" THEN <<"hkdf", FOf(t), t.ikm, t.salt, t.info>>
                  ELSE <<"pbkdf", FOf(t), t.ikm, t.salt, t.iter>>
TOkmTab == TLCEval([k \in {OkmId(t) : t \in Range_(World.okm)} |->
    LET t == CHOOSE u \in Range_(World.okm) : OkmId(u) = k
        f == FOf(t)
    IN  TLCEval(IF t.k = "hkdf"
        THEN HkdfOfT(f.alg, f.hd, f.md, Cut(t.ikm), Cut(t.salt), Cut(t.info), t.len)
        ELSE Pbkdf2OfT(f.alg, f.hd, f.md, Cut(t.ikm), Cut(t.salt), t.iter, t.len))])

TKsTab == TLCEval([k \in {<<t.use, t.key, t.iv>> : t \in Range_(World.ks)} |->
    LET len == (CHOOSE t \in Range_(World.ks) : <<t.use, t.key, t.iv>> = k).len
        iv == Cut(k[3])
    IN  TLCEval(Keystream(Cut(k[2]), IF k[1] = "aead" THEN AeadIv(iv, 0) ELSE iv, 0, len))])

-----------------------------------------------------------------------------
VARIABLES s,        \* session
          l,        \* next event
          obj, mem  \* the state of Milo

\* TLC would evaluate the tables again and again (SANY takes what is built on
\* the recursive operators of Bitwise for not constant): they are kept in
\* registers, filled once.
ASSUME /\ TLCSet(1, THashTab) /\ TLCSet(2, TMacTab) /\ TLCSet(3, TOkmTab) /\ TLCSet(4, TKsTab)
       /\ TLCSet(5, TChainTab)

M == INSTANCE MiloEvents WITH
        Streams <- TStreams, HashTab <- TLCGet(1), ChainTab <- TLCGet(5), MacTab <- TLCGet(2), OkmTab <- TLCGet(3),
        KsTab <- TLCGet(4), ErrNone <- 0, ErrBase16 <- World.errors.base_16,
        ErrBase64 <- World.errors.base_64, ErrAead <- World.errors.aead

Slots == 1..8

tvars == <<s, l, obj, mem>>

TInit == /\ s \in 1..Len(Sessions)
         /\ l = 0
         /\ obj = [o \in Slots |-> M!None]
         /\ mem = <<>>

Begin == l = 0 /\ l' = 1 /\ UNCHANGED <<s, obj, mem>>

Step == /\ l >= 1 /\ l <= Len(Sessions[s])
        /\ M!Matches(Sessions[s][l])
        /\ l' = l + 1
        /\ UNCHANGED s

Done == l > Len(Sessions[s]) /\ UNCHANGED tvars

TNext == Begin \/ Step \/ Done

TSpec == TInit /\ [][TNext]_tvars

-----------------------------------------------------------------------------
Report == [session |-> s, position |-> l,
           refused |-> IF l >= 1 /\ l <= Len(Sessions[s]) THEN ToJson(Sessions[s][l]) ELSE "-",
           expected |-> IF l = 0 \/ l = Len(Sessions[s]) + 1 THEN "-"
                        ELSE IF ENABLED Step THEN "-" ELSE ToJson(M!Expected(Sessions[s][l]))]
=============================================================================
