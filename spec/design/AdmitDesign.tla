---------------------------- MODULE AdmitDesign ----------------------------
(***************************************************************************)
(* What the decisions of Admit are good for: a form is written down, the   *)
(* compiler admits it or not, an admitted one runs with any sizes, texts   *)
(* that may be faulty and memory that may be refused.  No run of an        *)
(* admitted form writes past its output, returns a byte nobody wrote,      *)
(* hides a failure or ends the process; and each rule is needed, since a   *)
(* compiler that drops it (Dropped) admits a form of which a run does one  *)
(* of these.                                                               *)
(***************************************************************************)
EXTENDS Admit, TLC

CONSTANTS Dropped, Digest, Most

Pl(form, elem, writable, grows, size, silent) ==
    [form |-> form, elem |-> elem, writable |-> writable, grows |-> grows, size |-> size, silent |-> silent]

Outs == {Pl("pointer", e, w, FALSE, 0, TRUE) : e \in {"char", "int"}, w \in BOOLEAN}
        \cup {Pl("own", e, w, g, IF g THEN 0 ELSE n, s) : e \in {"char", "int"}, w \in BOOLEAN, g \in BOOLEAN, n \in 0..Most, s \in BOOLEAN}

Asked == {<<"hash", "digest">>, <<"hkdf", "derive">>, <<"cipher", "encrypt">>, <<"codec", "decode">>}
In == Pl("pointer", "char", FALSE, FALSE, 0, TRUE)

Forms == {[group |-> a[1], call |-> a[2], impl |-> [kind |-> a[1], digest |-> Digest],
           ins |-> [i \in 1..Calls[a[1]][a[2]].ins |-> In], outs |-> <<o>>, how |-> h, errs |-> es, count |-> FALSE] :
              a \in Asked, o \in Outs, h \in {"into", "whole", "sized"}, es \in {<<>>, <<"error">>}}

\* The rules, one by one; a compiler that dropped one would judge the form as if it were another.
Judged(f) ==
    LET o == f.outs[1]
    IN  CASE Dropped = "none"     -> f
          [] Dropped = "bound"    -> IF Shape(f).gives = "digest" /\ f.how = "whole" /\ ~o.grows THEN [f EXCEPT !.outs[1].size = 1] ELSE f
          [] Dropped = "writable" -> [f EXCEPT !.outs[1].writable = TRUE]
          [] Dropped = "elements" -> [f EXCEPT !.outs[1].elem = "char"]
          [] Dropped = "silent"   -> [f EXCEPT !.outs[1].silent = TRUE]
          [] Dropped = "grows"    -> IF f.how # "into" /\ Shape(f).gives # "key" /\ ~o.grows /\ o.form = "own" /\ (f.how = "sized" \/ Shape(f).gives = "text")
                                     THEN [f EXCEPT !.outs[1].grows = TRUE] ELSE f

VARIABLES form, state, n, room, wrote, failed, told, ended

vars == <<form, state, n, room, wrote, failed, told, ended>>

Init == /\ form \in Forms
        /\ state = "written" /\ n = 0 /\ room = 0 /\ wrote = 0 /\ failed = FALSE /\ told = "nothing" /\ ended = FALSE

Compile == /\ state = "written"
           /\ state' = IF Admits(Judged(form)) THEN "compiled" ELSE "rejected"
           /\ UNCHANGED <<form, n, room, wrote, failed, told, ended>>

O == form.outs[1]

\* The promise of a form, the strongest one allowed.
Quiet == ~Raises(form)

\* The caller of a pointer provides what it says; the size of an element counts in bytes.
Width == IF O.elem = "char" THEN 1 ELSE 4

Run == /\ state = "compiled"
       /\ n' \in 0..Most
       /\ \E bad \in BOOLEAN, refused \in BOOLEAN, throws \in BOOLEAN :
          /\ bad => Shape(form).fails
          /\ refused => O.grows
          /\ throws => ~O.silent
          /\ LET want == CASE form.how = "whole" /\ ~O.grows -> O.size
                           [] Shape(form).gives = "digest" -> IF n' < Digest THEN n' ELSE Digest
                           [] OTHER -> n'
                 cap == CASE O.form = "pointer" -> want * Width
                          [] O.grows -> want * Width
                          [] OTHER -> O.size * Width
                 can == IF form.how = "into" /\ O.form = "own" /\ ~O.grows /\ want > O.size THEN O.size ELSE want
                 stored == IF Shape(form).gives = "digest" /\ can > Digest THEN Digest ELSE can
             IN  /\ room' = cap \div Width
                 /\ wrote' = IF refused \/ throws THEN 0 ELSE IF ~O.writable THEN Most + 1 ELSE stored
                 /\ failed' = bad
                 /\ told' = CASE refused \/ throws -> "raised"
                              [] bad /\ form.errs = <<>> -> "raised"
                              [] bad -> "error"
                              [] OTHER -> "done"
                 /\ ended' = ((refused \/ throws \/ (bad /\ form.errs = <<>>)) /\ Quiet)
       /\ state' = "ran"
       /\ UNCHANGED form

Next == Compile \/ Run

Spec == Init /\ [][Next]_vars

Ran == state = "ran" /\ told # "raised"

\* Nothing past the end, or into what cannot be written.
InRoom == Ran => wrote <= room
\* What is returned was written, all of it.
Whole == Ran /\ form.how # "into" => wrote = room
\* What was asked for fits what is returned: no less than the digest has or than was asked.
Enough == Ran /\ form.how = "sized" => wrote = (IF Shape(form).gives = "digest" /\ n > Digest THEN Digest ELSE n)
\* A text is not cut.
Uncut == Ran /\ Shape(form).gives = "text" /\ form.how # "into" => wrote = n
\* Elements are bytes: as many of them as bytes were computed.
Bytewise == Ran => Width = 1
Told == state = "ran" /\ failed => told \in {"error", "raised"}
Lives == ~ended

Good == InRoom /\ Whole /\ Enough /\ Uncut /\ Bytewise /\ Told /\ Lives
=============================================================================
