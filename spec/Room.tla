-------------------------------- MODULE Room --------------------------------
(***************************************************************************)
(* Memory that a call asks for.  A call is described by                    *)
(*   form     "fix": its outputs are pointers or have a fixed size,        *)
(*            "grow": resizable ones handed in, "give": resizable ones it  *)
(*            returns                                                      *)
(*   room     what every resizable output handed in holds without asking   *)
(*   need     what the largest of them has to hold                         *)
(*   asked    requests for memory of the call, or, when one was refused,   *)
(*            of the same call made again                                  *)
(*   at       the request that was refused, 0: none                        *)
(*   refused  what the refused call raised: 0 nothing, 1 the exception of  *)
(*            the one who refused, 2 something else                        *)
(*   plain    memory obtained in any other way                             *)
(*                                                                         *)
(* A refused call is a step of its own, before the call that is made       *)
(* again: it raises what the container raised and changes nothing, except  *)
(* that a digest may have ended its message: nothing is to be added to it. *)
(***************************************************************************)
EXTENDS Access

MayAsk(q) == \/ q.form = "give"
             \/ q.form = "grow" /\ q.room < q.need

\* The call that was refused memory: a step before the call itself.
Refused(q) == /\ MayAsk(q)
              /\ q.at > 0
              /\ q.refused = 1
              /\ UNCHANGED vars

\* Only what may grow asks for memory, and no refusal is passed over.
Asks(q) == /\ q.plain = 0
           /\ q.asked > 0 => MayAsk(q)
           /\ q.refused = 0 => (q.at = 0 \/ q.at > q.asked)

=============================================================================
