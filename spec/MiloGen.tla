------------------------------ MODULE MiloGen ------------------------------
(***************************************************************************)
(* Behaviours of Milo as schedules for the real library.                   *)
(*                                                                         *)
(* The environment variable GEN names a JSON file with an alphabet of      *)
(* calls, a prologue (calls every behaviour starts with) and a depth.  TLC *)
(* enumerates (or, in simulation mode, samples) the behaviours of Milo     *)
(* whose calls are taken from the alphabet and prints each of that depth.  *)
(* Which calls are possible when is Milo's business, not the alphabet's.   *)
(*                                                                         *)
(* The configuration replaces the algorithms by constant ones of the same  *)
(* sizes: the schedules do not depend on the bytes, which MiloTrace checks *)
(* when the schedule has been executed.                                    *)
(***************************************************************************)
EXTENDS MiloEvents, Json, IOUtils

VARIABLE hist           \* numbers of the calls so far
gvars == <<obj, mem, hist>>

Conf == JsonDeserialize(IOEnv.GEN)
GStreams == Conf.streams
NoTab == <<>>

SymHash(alg, msg) == Zeros(DigestSize(alg))
SymHmac(alg, hd, key, msg) == Zeros(hd)
SymPoly(key, c) == Zeros(16)
SymHkdf(alg, hd, md, ikm, salt, info, size) == Zeros(size)
SymPbkdf2(alg, hd, md, pass, salt, c, from, size) == Zeros(size)
SymKeystream(key, iv, from, len) == Zeros(len)
SymTag(otk, aad, ct) == Zeros(16)
SymMacTag(f, key, c) == Zeros(IF f.alg = "poly_1305" THEN 16 ELSE f.hd)

\* A call of the alphabet with the results that Milo gives it.
Possible(e) ==
    CASE e.op = "dig" -> obj[e.o].k \in {"hash", "mac", "aead"} /\ obj[e.o].ph # "raw"
      [] e.op = "der" -> obj[e.o].k \in {"hkdf", "pbkdf"} /\ obj[e.o].ph = "open"
                         /\ obj[e.o].pos + e.n <= OkmMax(obj[e.o])
      [] e.op \in {"enc", "dec"} -> obj[e.o].k \in {"cipher", "aead"} /\ obj[e.o].ph # "raw" /\ RefOk(Ref(e.a))
      [] e.op = "ver" -> obj[e.o].k = "aead" /\ obj[e.o].ph # "raw" /\ RefOk(Ref(e.a))
      [] e.op = "new" -> Absent(e.o)
      [] e.op \in {"cpy", "asg", "mov", "drop"} -> ~Absent(e.o)
      [] e.op \in {"mset", "mflip", "mcut", "madd"} -> TRUE
      [] OTHER -> ~Absent(e.o)

Complete(e) ==
    CASE e.op = "dig" -> LET b == DigestOut(e.o, e.n) IN e @@ [r |-> Len(b), out |-> b]
      [] e.op = "der" -> e @@ [r |-> e.n, out |-> Okm(obj[e.o], e.n)]
      [] e.op \in {"enc", "dec"} -> e @@ [r |-> e.a[3], out |-> CryptBytes(obj[e.o], RefBytes(Ref(e.a)))]
      [] e.op = "ver" -> e @@ [r |-> IF RefBytes(Ref(e.a)) = AeadDigest(obj[e.o]) THEN 1 ELSE 0]
      [] OTHER -> e

Slots == 1..8

RECURSIVE Prologue(_, _)
Prologue(st, i) ==
    IF i > Len(Conf.prologue) THEN st
    ELSE LET e == Conf.prologue[i]
         IN  Prologue([st EXCEPT ![e.o] = Fresh(e.k, FOf(e))], i + 1)

GInit == /\ obj = Prologue([o \in Slots |-> None], 1)
         /\ mem = <<>>
         /\ hist = <<>>

GNext == /\ Len(hist) < Conf.depth
         /\ \E i \in 1..Len(Conf.calls) :
                LET e == Conf.calls[i]
                IN  /\ Possible(e)
                    /\ Matches(Complete(e))
                    /\ hist' = Append(hist, i)

GSpec == GInit /\ [][GNext]_gvars

\* Print behaviours of full depth, and those that end before.
Emit == IF Len(hist) = Conf.depth THEN PrintT("H " \o ToJson(hist)) ELSE TRUE
=============================================================================
