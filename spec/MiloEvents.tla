---------------------------- MODULE MiloEvents ----------------------------
(***************************************************************************)
(* Recorded calls as actions of Milo.  An event is a record with the name  *)
(* of the call (op), its slots (o, d), its inputs (a, b, c: <<m, s, n>>),  *)
(* numbers (n, i, ...) and what it delivered: returned size r, bytes out,  *)
(* error e.                                                                *)
(***************************************************************************)
EXTENDS Room

FOf(t) == [alg |-> t.alg, hd |-> t.hd, md |-> t.md]

Ref(q) == [m |-> q[1], s |-> q[2], n |-> q[3]]

Call(e) ==
    CASE e.op = "new"  -> New(e.o, e.k, FOf(e))
      [] e.op = "drop" -> Drop(e.o)
      [] e.op = "cpy"  -> Copy(e.d, e.o)
      [] e.op = "asg"  -> Assign(e.d, e.o)
      [] e.op = "mov"  -> Move(e.d, e.o)
      [] e.op = "rst"  -> InitHash(e.o)
      [] e.op = "key"  -> InitMac(e.o, Ref(e.a))
      [] e.op = "hkdf" -> InitHkdf(e.o, Ref(e.a), Ref(e.b), Ref(e.c))
      [] e.op = "pbk"  -> InitPbkdf(e.o, Ref(e.a), Ref(e.b), e.i)
      [] e.op = "cip"  -> InitCipher(e.o, Ref(e.a), Ref(e.b))
      [] e.op = "aead" -> InitAead(e.o, Ref(e.a), Ref(e.b))
      [] e.op = "upd"  -> Update(e.o, Ref(e.a))
      [] e.op = "dig"  -> Digest(e.o, e.n, e.r, e.out, e.st)
      [] e.op = "der"  -> Derive(e.o, e.n, e.r, e.out)
      [] e.op = "derz" -> DeriveTail(e.o, e.n, e.r, e.last)
      [] e.op \in {"enc", "dec"} -> Crypt(e.o, e.op, Ref(e.a), e.r, e.out, e.st)
      [] e.op \in {"encz", "decz"} -> CryptZeros(e.o, IF e.op = "encz" THEN "enc" ELSE "dec",
                                                 e.u, e.n, e.ru, e.rn, e.last)
      [] e.op = "aad"  -> Aad(e.o, Ref(e.a))
      [] e.op = "ver"  -> e.r \in {0, 1} /\ Verify(e.o, Ref(e.a), e.r = 1)
      [] e.op = "seal" -> Seal(Ref(e.a), Ref(e.b), Ref(e.c), Ref(e.d), e.r, e.out, e.tag, e.st, e.su)
      [] e.op = "open" -> e.r \in {0, 1} /\ Open(Ref(e.a), Ref(e.b), Ref(e.c), Ref(e.d), Ref(e.t), e.r = 1, e.n, e.out)
      [] e.op = "1hash" -> HashOnce(FOf(e), Ref(e.a), e.n, e.r, e.out)
      [] e.op = "1mac" -> MacOnce(FOf(e), Ref(e.a), Ref(e.b), e.n, e.r, e.out)
      [] e.op = "1hkdf" -> HkdfOnce(FOf(e), Ref(e.a), Ref(e.b), Ref(e.c), e.n, e.r, e.out)
      [] e.op = "1pbk" -> PbkdfOnce(FOf(e), Ref(e.a), Ref(e.b), e.i, e.n, e.r, e.out)
      [] e.op \in {"1enc", "1dec"} -> CipherOnce(Ref(e.a), Ref(e.b), Ref(e.c), e.r, e.out)
      [] e.op \in {"esz", "dsz"} -> CryptSize(e.o, Ref(e.a), e.r)
      [] e.op = "siz"  -> Sizes(e.o, e.r)
      [] e.op = "regs" -> Registers(e.v)
      [] e.op = "mset" -> MemSet(e.m, e.v)
      [] e.op = "mflip" -> MemFlip(e.m, e.i, e.x)
      [] e.op = "mcut" -> MemCut(e.m, e.n)
      [] e.op = "madd" -> MemAdd(e.m, e.v)
      [] e.op = "cenc" -> Encode(e.k, Ref(e.a), e.r, e.out)
      [] e.op = "cdec" -> Decode(e.k, Ref(e.a), e.e, e.r, e.out)
      [] e.op = "lit" -> Literal(e.k, Ref(e.a), e.raw, e.e, e.r, e.out)
      [] e.op = "cesz" -> EncodeSize(e.k, Ref(e.a), e.r)
      [] e.op = "cdsz" -> DecodeSize(e.k, Ref(e.a), e.r)
      [] e.op = "cencz" -> EncodeZeros(e.k, e.u, e.n, e.t, e.ru, e.rn, e.last)
      [] e.op = "ceszz" -> EncodeZerosSize(e.k, e.u, e.n, e.ru, e.rn)
      [] e.op = "cdecz" -> DecodeLong(e.k, e.u, e.n, e.v, e.t, e.e, e.ru, e.rn, e.last)
      [] e.op = "cdszz" -> DecodeLongSize(e.k, e.u, e.n, e.v, e.ru, e.rn)
      [] OTHER -> FALSE       \* crash, hang, escaped exception, stray write

\* Some recordings have the accesses to the memory of the operands, too, or what memory was asked for.
Matches(e) == /\ "acc" \in DOMAIN e => AccessesOk(e)
              /\ "room" \in DOMAIN e => Asks(e.room)
              /\ IF e.op = "refused" THEN Refused(e.room) ELSE Call(e)

-----------------------------------------------------------------------------
\* What the refused event should have delivered, for the report.
Expected(e) ==
    CASE e.op = "dig" -> DigestOut(e.o, e.n)
      [] e.op = "der" -> Okm(obj[e.o], e.n)
      [] e.op = "derz" -> Okm([obj[e.o] EXCEPT !.pos = @ + e.n - Len(e.last)], Len(e.last))
      [] e.op \in {"enc", "dec"} -> CryptBytes(obj[e.o], RefBytes(Ref(e.a)))
      [] e.op = "ver" -> AeadDigest(obj[e.o])
      [] e.op = "siz" -> Reports(obj[e.o])
      [] e.op = "regs" -> Kept
      [] e.op = "seal" -> [ct |-> CryptBytes(OneShot(Ref(e.a), Ref(e.b), Ref(e.c)), RefBytes(Ref(e.d)))]
      [] e.op = "open" -> AeadDigest([OneShot(Ref(e.a), Ref(e.b), Ref(e.c)) EXCEPT !.ct = Content(Ref(e.d))])
      [] e.op = "1hash" -> First(HashDigest([f |-> FOf(e), msg |-> Content(Ref(e.a))]), e.n)
      [] e.op = "1mac" -> First(MacDigest([f |-> FOf(e), key |-> Content(Ref(e.a)), msg |-> Content(Ref(e.b))]), e.n)
      [] e.op = "cenc" -> IF e.k = "base_16" THEN Base16Encode(RefBytes(Ref(e.a)))
                          ELSE Base64Encode(RefBytes(Ref(e.a)))
      [] e.op = "cdec" -> Decoded(e.k, RefBytes(Ref(e.a)))
      [] e.op \in {"cencz", "ceszz"} -> LongEncodedSize(e.k, Unit, e.u, e.n)
      [] e.op \in {"cdecz", "cdszz"} -> LongDecoded(e.k, Unit, e.u, e.n, e.v, IF e.op = "cdecz" THEN e.t ELSE 0)
      [] OTHER -> "this call completing normally"

=============================================================================
