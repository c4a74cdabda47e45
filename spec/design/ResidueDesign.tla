--------------------------- MODULE ResidueDesign ---------------------------
(***************************************************************************)
(* The memory of an object that absorbs a key and a message in a buffer:   *)
(* fields hold values that were computed from them.  Two programs with the *)
(* same calls and other secrets are followed side by side (they differ in  *)
(* Secret[1] and Secret[2]); after a destruction their memory is observed  *)
(* as in Residue.  The destructor overwrites the fields in Erased; with a  *)
(* field that depends on secrets missing from it the invariant fails.      *)
(***************************************************************************)
EXTENDS Residue, Integers

CONSTANTS Fields, Erased, Depth

\* Fields: "state" (chaining value), "buffer", "fill" (how much is in the
\* buffer), "key", "view" (where a string of the caller lies).
ASSUME Erased \subseteq Fields

VARIABLES w,        \* world (1 or 2) -> slot -> memory or "absent"
          calls, refused

vars == <<w, calls, refused, left>>
Slots == {1, 2}
Worlds == {1, 2}

\* Contents: what was absorbed, in which world; the empty sequence: zero.
Junk == [f \in Fields |-> <<"junk">>]
Absent == [f \in Fields |-> <<"absent">>]
There(s) == w[1][s] # Absent

Init == /\ w = [x \in Worlds |-> [s \in Slots |-> Absent]]
        /\ calls = <<>> /\ refused = FALSE
        /\ left = [x \in {} |-> <<>>]

Note(op, s, d) == calls' = Append(calls, [op |-> op, o |-> s, d |-> d])
Change(F(_, _)) == w' = [x \in Worlds |-> F(w[x], x)]

\* Operands of a world are secrets of that world.
New(s) == /\ ~There(s)
          /\ Change(LAMBDA m, x : [m EXCEPT ![s] = [Junk EXCEPT !["buffer"] = <<>>, !["fill"] = <<0>>]])
          /\ Note("new", s, 0) /\ UNCHANGED <<refused, left>>

Key(s) == /\ There(s)
          /\ Change(LAMBDA m, x : [m EXCEPT ![s]["key"] = <<x, "key">>, ![s]["state"] = <<x, "key">>,
                                            ![s]["fill"] = <<0>>, ![s]["view"] = <<"address">>])
          /\ Note("key", s, 0) /\ UNCHANGED <<refused, left>>

\* A full buffer is absorbed and stays where it is.
Update(s) == /\ There(s)
             /\ Change(LAMBDA m, x :
                    IF m[s]["fill"] = <<1>>
                    THEN [m EXCEPT ![s]["state"] = <<x, "mix">>, ![s]["fill"] = <<0>>]
                    ELSE [m EXCEPT ![s]["buffer"] = <<x, "part">>, ![s]["fill"] = <<1>>])
             /\ Note("upd", s, 0) /\ UNCHANGED <<refused, left>>

Assign(s, d) == /\ There(s) /\ There(d) /\ s # d
                /\ Change(LAMBDA m, x : [m EXCEPT ![d] = m[s]])
                /\ Note("asg", s, d) /\ UNCHANGED <<refused, left>>

Copy(s, d) == /\ There(s) /\ ~There(d)
              /\ Change(LAMBDA m, x : [m EXCEPT ![d] = m[s]])
              /\ Note("cpy", s, d) /\ UNCHANGED <<refused, left>>

After(m) == [f \in Fields |-> IF f \in Erased THEN <<>> ELSE m[f]]

Drop(s) == /\ There(s)
           /\ LET l == Life("design", Append(calls, [op |-> "drop", o |-> s, d |-> 0]))
                  m == [x \in Worlds |-> After(w[x][s])]
                  \* One world, and then the other.
                  one == [x \in {l} |-> m[1]]
              IN  /\ left' = one
                  /\ refused' = (refused \/ one[l] # m[2])
           /\ Change(LAMBDA m, x : [m EXCEPT ![s] = Absent])
           /\ Note("drop", s, 0)

Next == /\ Len(calls) < Depth
        /\ \/ \E s \in Slots : New(s) \/ Key(s) \/ Update(s) \/ Drop(s)
           \/ \E s \in Slots : \E d \in Slots : Assign(s, d) \/ Copy(s, d)

Spec == Init /\ [][Next]_vars

NothingLeft == ~refused
View == <<w, Len(calls), refused>>
=============================================================================
