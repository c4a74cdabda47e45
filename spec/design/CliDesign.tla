------------------------------ MODULE CliDesign ------------------------------
(***************************************************************************)
(* What users may take for granted about argument lists, for all lists up  *)
(* to a size over some tokens.                                             *)
(***************************************************************************)
EXTENDS MiloCli

CONSTANT MaxArgs

Tokens == {"benchmark", "primitive", "list", "hash-sha-1-160", "codec-base-16-*", "--verbose", "--advanced", "--repeats-time=2",
           "--repeats-time=x", "--message-size=3", "--message-size=4", "--message-size", "--other=1", "-o", "version", ""}

VARIABLE args

Init == args = <<>>
Next == Len(args) < MaxArgs /\ \E t \in Tokens : args' = Append(args, t)
Spec == Init /\ [][Next]_args

Same(a, b) == \A l \in BOOLEAN : Outcome(a, l) = Outcome(b, l)
Insert(q, k, t) == SubSeq(q, 1, k) \o <<t>> \o SubSeq(q, k + 1, Len(q))
Swap(q, k) == [q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]

\* Unknown parameters are ignored.
Ignored == \A k \in 0 .. Len(args) : Same(args, Insert(args, k, "--unknown=7"))

\* Parameters with different names come in any order.
Order == \A k \in 1 .. Len(args) - 1 :
            IsParameter(args[k]) /\ IsParameter(args[k + 1]) /\ NameOf(args[k]) # NameOf(args[k + 1]) => Same(args, Swap(args, k))

\* The first of several parameters with one name wins.
First == \A k \in 1 .. Len(args) - 1 :
            IsParameter(args[k]) => Same(args, Insert(args, k, "--" \o NameOf(args[k]) \o "=9"))

\* Without a dashed token of one dash there is one reading.
Certain == (\A k \in DOMAIN args : args[k] # "-o") => Outcome(args, TRUE) = Outcome(args, FALSE)

\* What comes after the commands matters to reports only.
Extra == \A t \in {"list", "version", "nothing"} :
            LET o == Outcome(args, FALSE) IN o.kind \in {"version", "list"} => Outcome(Append(args, t), FALSE) = o

\* Advanced benchmarks are further ones.
Further == LET o == Outcome(args, FALSE)
               a == Outcome(Insert(args, 0, "--advanced"), FALSE)
           IN  /\ o.kind = "list" => a.kind = "list" /\ o.names \subseteq a.names
               /\ o.kind = "report" /\ a.kind = "report" => UNION {g.names : g \in o.groups} \subseteq UNION {g.names : g \in a.groups}
=============================================================================
