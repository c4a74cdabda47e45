----------------------------- MODULE RoomDesign -----------------------------
(***************************************************************************)
(* A stream processed into resizable outputs.  A call first makes its      *)
(* output large enough, for which the memory may be refused, and then      *)
(* processes; a refused call can be made again, or another one instead.    *)
(* What was delivered must be the stream without a gap or a repetition.    *)
(* With Late the stream moves on before there is room: a refusal then      *)
(* loses a part of it, and the invariant fails.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Late, Sizes, Rooms, Depth

VARIABLES pos,          \* of the object in its stream
          got,          \* positions delivered so far
          call,         \* "idle", or the size of the call under way
          room,         \* of the output of that call
          asked, calls

vars == <<pos, got, call, room, asked, calls>>

Init == pos = 0 /\ got = <<>> /\ call = "idle" /\ room = 0 /\ asked = 0 /\ calls = 0

Part(p, n) == [i \in 1..n |-> p + i]

Begin == /\ call = "idle" /\ calls < Depth
         /\ \E n \in Sizes, r \in Rooms :
               /\ call' = ToString(n) /\ room' = r /\ asked' = 0
               /\ calls' = calls + 1
               /\ pos' = IF Late THEN pos + n ELSE pos
               /\ UNCHANGED got

Size == CHOOSE n \in Sizes : ToString(n) = call

\* The container asks for memory if it has too little.
Grow == /\ call # "idle" /\ room < Size
        /\ room' = Size /\ asked' = asked + 1
        /\ UNCHANGED <<pos, got, call, calls>>

Refuse == /\ call # "idle" /\ room < Size
          /\ call' = "idle"
          /\ UNCHANGED <<pos, got, room, asked, calls>>

Deliver == /\ call # "idle" /\ room >= Size
           /\ LET p == IF Late THEN pos - Size ELSE pos
              IN  got' = got \o Part(p, Size) /\ pos' = p + Size
           /\ call' = "idle"
           /\ UNCHANGED <<room, asked, calls>>

Next == Begin \/ Grow \/ Refuse \/ Deliver

Spec == Init /\ [][Next]_vars

NoGap == got = [i \in 1..Len(got) |-> i]

\* Between calls the object is where the deliveries ended.
InPlace == call = "idle" => pos = Len(got)

\* A call asks for memory once at most, and not at all if it has enough.
Sparing == asked <= 1

=============================================================================
