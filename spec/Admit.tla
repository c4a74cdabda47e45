------------------------------- MODULE Admit -------------------------------
(***************************************************************************)
(* Which calls of the library exist.  The types of a call decide, before   *)
(* any run, what can be known to go wrong with it: a call that can only    *)
(* fail does not compile, every other one does.                            *)
(*                                                                         *)
(* A form of a call is a record                                            *)
(*   group    hash, mac, hkdf, pbkdf, cipher, aead, codec                  *)
(*   call     what is asked for: see Calls                                 *)
(*   impl     [kind, digest]: the algorithm it is asked of, and the size   *)
(*            of its digest, if it has one                                 *)
(*   ins      the inputs, places (see below)                               *)
(*   outs     the outputs, places                                          *)
(*   how      "into" outputs of the caller, or returned: "whole", in the   *)
(*            size the type has, or "sized", as asked at run time          *)
(*   errs     types of further arguments: "error" takes a report           *)
(*   count    whether a number of iterations is among the arguments        *)
(* and a place is a record                                                 *)
(*   form     "pointer", "own" (an object with its memory) or "view"       *)
(*   elem     the type of its elements                                     *)
(*   writable whether they can be written                                  *)
(*   grows    whether it can be given room at run time                     *)
(*   size     the number of elements, if its type has one, or 0            *)
(*   silent   whether asking it for its data and size cannot throw         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Elements == {"char", "signed char", "unsigned char"}

-----------------------------------------------------------------------------
(* The calls: number of inputs and outputs, whether what they return is a  *)
(* digest, a key or a text, and whether they report a failure.             *)

C(i, o, gives, fails) == [ins |-> i, outs |-> o, gives |-> gives, fails |-> fails]

Calls == [
    hash   |-> [update |-> C(1, 0, "none", FALSE), digest |-> C(0, 1, "digest", FALSE), one |-> C(1, 1, "digest", FALSE)],
    mac    |-> [construct |-> C(1, 0, "none", FALSE), initialize |-> C(1, 0, "none", FALSE), update |-> C(1, 0, "none", FALSE),
                digest |-> C(0, 1, "digest", FALSE), one |-> C(2, 1, "digest", FALSE)],
    hkdf   |-> [construct |-> C(3, 0, "none", FALSE), initialize |-> C(3, 0, "none", FALSE), derive |-> C(0, 1, "key", FALSE),
                one |-> C(3, 1, "key", FALSE)],
    pbkdf  |-> [construct |-> C(2, 0, "none", FALSE), initialize |-> C(2, 0, "none", FALSE), derive |-> C(0, 1, "key", FALSE),
                one |-> C(2, 1, "key", FALSE)],
    cipher |-> [construct |-> C(2, 0, "none", FALSE), initialize |-> C(2, 0, "none", FALSE), encrypt |-> C(1, 1, "text", FALSE),
                decrypt |-> C(1, 1, "text", FALSE), encrypt_one |-> C(3, 1, "text", FALSE), decrypt_one |-> C(3, 1, "text", FALSE),
                encrypt_size |-> C(1, 0, "none", FALSE), decrypt_size |-> C(1, 0, "none", FALSE)],
    aead   |-> [construct |-> C(2, 0, "none", FALSE), initialize |-> C(2, 0, "none", FALSE), aad |-> C(1, 0, "none", FALSE),
                encrypt |-> C(1, 1, "text", FALSE), decrypt |-> C(1, 1, "text", FALSE), digest |-> C(0, 1, "digest", FALSE),
                verify |-> C(1, 0, "none", TRUE), encrypt_one |-> C(4, 2, "text", FALSE), decrypt_one |-> C(5, 1, "text", TRUE),
                encrypt_size |-> C(1, 0, "none", FALSE), decrypt_size |-> C(1, 0, "none", FALSE)],
    codec  |-> [encode |-> C(1, 1, "text", FALSE), decode |-> C(1, 1, "text", TRUE), encode_one |-> C(1, 1, "text", FALSE),
                decode_one |-> C(1, 1, "text", TRUE), encode_size |-> C(1, 0, "none", FALSE), decode_size |-> C(1, 0, "none", FALSE)]]

Shape(e) == Calls[e.group][e.call]

-----------------------------------------------------------------------------
(* Places. *)

\* Bytes can be read from it.  The calls are free of exceptions of their own, so a size that can throw cannot be handled.
Gives(p) == p.elem \in Elements /\ p.silent

Takes(p) == Gives(p) /\ p.writable

\* What a call can return: an object, which holds its memory.
Holds(p, how, gives, digest) ==
    /\ p.form = "own" /\ Takes(p)
    /\ CASE how = "sized" -> p.grows /\ gives # "text"
         [] how = "whole" -> CASE gives = "digest" -> ~p.grows /\ p.size \in 1..digest
                               [] gives = "key"    -> ~p.grows
                               [] gives = "text"   -> p.grows

-----------------------------------------------------------------------------
(* The decision. *)

AskedOf(e) == e.impl.kind = e.group

Fits(e) ==
    LET s == Shape(e)
    IN  /\ Len(e.ins) = s.ins /\ Len(e.outs) = s.outs
        /\ \A i \in 1..Len(e.ins) : Gives(e.ins[i])
        /\ \A i \in 1..Len(e.outs) :
              IF e.how = "into"
              THEN Takes(e.outs[i])
              \* A sealing call returns the text and the digest.
              ELSE Holds(e.outs[i], e.how, IF i = 2 THEN "digest" ELSE s.gives, e.impl.digest)
        \* Iterations are what distinguishes the two derivations.
        /\ e.count = (e.group = "pbkdf" /\ s.ins > 0)
        /\ IF s.fails THEN Len(e.errs) <= 1 ELSE Len(e.errs) = 0
        /\ \A i \in 1..Len(e.errs) : e.errs[i] = "error"

Admits(e) == AskedOf(e) /\ Fits(e)

-----------------------------------------------------------------------------
(* What a form can do when it runs, and what it promises. *)

\* It can raise the failure it was not given a place for, and what an output raises that gets no memory.
Raises(e) == \/ Shape(e).fails /\ e.errs = <<>>
             \/ \E i \in 1..Len(e.outs) : e.outs[i].form = "own" /\ e.outs[i].grows

\* A promise that nothing is thrown turns what is thrown into the end of the process; the forms that write to what
\* they are given, and report to what they are given, promise it (except over views, of which nothing is known).
Promises(e, quiet) ==
    /\ quiet => ~Raises(e)
    /\ e.how = "into" /\ ~Raises(e) /\ (\A i \in 1..Len(e.outs) : e.outs[i].form # "view") => quiet

FormOk(e) == /\ e.compiled = Admits(e)
             /\ e.compiled /\ e.known => Promises(e, e.quiet)

-----------------------------------------------------------------------------
(* Algorithms are types as well, made of others. *)

\* Over what each of them is built.
Composes(outer, parts) ==
    CASE outer = "hmac"  -> parts = <<"hash">>
      [] outer = "hkdf"  -> parts = <<"hmac">>
      [] outer = "pbkdf" -> parts = <<"hmac">>
      [] outer = "aead"  -> parts = <<"cipher", "poly">>

\* A digest can be shortened, but there are no more bytes than the algorithm computes.
Shortens(full, size) == size \in 1..full

\* What an algorithm tells about itself.
Full == [sha_1_160 |-> 20, sha_2_224 |-> 28, sha_2_256 |-> 32, sha_2_384 |-> 48, sha_2_512 |-> 64, sha_2_512_224 |-> 28,
         sha_2_512_256 |-> 32, poly_1305 |-> 16]
Block == [sha_1_160 |-> 64, sha_2_224 |-> 64, sha_2_256 |-> 64, sha_2_384 |-> 128, sha_2_512 |-> 128, sha_2_512_224 |-> 128,
          sha_2_512_256 |-> 128]

TypeOk(r) ==
    CASE r.kind = "composed" -> r.compiled = Composes(r.outer, r.parts)
      \* Size 0 is left open.
      [] r.kind = "shortened" -> r.size = 0 \/ r.compiled = Shortens(Full[r.algorithm], r.size)
      [] r.kind = "value" -> /\ r.compiled
                             /\ \A t \in {"copies", "moves", "copied", "moved", "destroyed"} : r[t]
      [] r.kind = "constants" -> /\ r.compiled
                                 /\ r.algorithm \in DOMAIN Full /\ r.over = "hash" =>
                                      r.digest = Full[r.algorithm] /\ r.block = Block[r.algorithm]
                                 /\ r.over = "hmac" => r.digest = Full[r.algorithm] /\ r.key = 0
                                 /\ r.over = "mac" => r.digest = 16 /\ r.key = 32
                                 /\ r.over = "cipher" => r.key = 32 /\ r.iv = 16
                                 /\ r.over = "aead" => r.key = 32 /\ r.iv = 12 /\ r.digest = 16

RecordOk(r) == IF r.kind = "form" THEN FormOk(r) ELSE TypeOk(r)
=============================================================================
