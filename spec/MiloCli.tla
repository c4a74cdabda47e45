------------------------------ MODULE MiloCli ------------------------------
(***************************************************************************)
(* The application: from a list of arguments to an exit status, a list of  *)
(* names or a report.  Arguments are strings.                              *)
(*                                                                         *)
(*   milo [--verbose] [--advanced] benchmark [--repeats-time=N]            *)
(*        [--repeats-warm=N] [--cpu-clock=MHz] primitive                   *)
(*        list | EXPRESSION [--parameters=N]                               *)
(*   milo version                                                          *)
(***************************************************************************)
EXTENDS Big, Integers, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
After(s, i) == SubSeq(s, i + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LOCAL Set(q) == {q[i] : i \in DOMAIN q}

-----------------------------------------------------------------------------
(* Scanning.                                                               *)

IsCommand(a) == ~StartsWith(a, "-")
IsParameter(a) == StartsWith(a, "--")

\* Position of the next command after position p, 0 if there is none.
RECURSIVE NextCommand(_, _)
NextCommand(args, p) == IF p + 1 > Len(args) THEN 0
                        ELSE IF IsCommand(args[p + 1]) THEN p + 1
                        ELSE NextCommand(args, p + 1)

\* The parameters after position p: tokens with two dashes up to the next command.  What a token
\* with one dash does to those after it is not specified: it ends them, or it is ignored.
RECURSIVE ParamsFrom(_, _, _)
ParamsFrom(args, p, lenient) ==
    IF p + 1 > Len(args) THEN <<>>
    ELSE IF IsParameter(args[p + 1]) THEN <<args[p + 1]>> \o ParamsFrom(args, p + 1, lenient)
    ELSE IF lenient /\ ~IsCommand(args[p + 1]) THEN ParamsFrom(args, p + 1, lenient)
    ELSE <<>>

RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)

NameOf(a) == LET e == FindFrom(a, "=", 3) IN SubSeq(a, 3, IF e = 0 THEN Len(a) ELSE e - 1)

Option(ps, name) == \E i \in DOMAIN ps : After(ps[i], 2) = name

RECURSIVE LookFrom(_, _, _)
LookFrom(ps, name, i) == IF i > Len(ps) THEN 0 ELSE IF NameOf(ps[i]) = name THEN i ELSE LookFrom(ps, name, i + 1)

Largest == "18446744073709551615"

\* The value of a numeric parameter: a decimal in plain form, or "bad".
Value(ps, name) ==
    LET i == LookFrom(ps, name, 1)
    IN  IF i = 0 THEN "bad"
        ELSE LET e == FindFrom(ps[i], "=", 3)
                 v == After(ps[i], e)
             IN  IF e = 0 THEN "bad"
                 ELSE IF v = "" THEN "0"
                 ELSE IF IsDecimal(v) /\ ~Less(Largest, Plain(v)) THEN Plain(v)
                 ELSE "bad"

ValueOr(ps, name, default) == LET v == Value(ps, name) IN IF v = "bad" THEN default ELSE v

-----------------------------------------------------------------------------
(* Expressions: a star stands for any sequence of characters.              *)

\* Sizes of the prefixes of s that the first i characters of the expression p match.
RECURSIVE Reach(_, _, _)
Reach(p, s, i) ==
    IF i = 0 THEN {0}
    ELSE LET r == Reach(p, s, i - 1)
         IN  TLCEval(IF Ch(p, i) = "*" THEN {j \in 0 .. Len(s) : \E k \in r : k <= j}
                     ELSE {j \in 1 .. Len(s) : j - 1 \in r /\ Ch(s, j) = Ch(p, i)})

Matches(p, s) == Len(s) \in Reach(p, s, Len(p))

-----------------------------------------------------------------------------
(* The benchmarks.                                                         *)

LOCAL Sha == {"sha-1-160", "sha-2-224", "sha-2-256", "sha-2-384", "sha-2-512", "sha-2-512-224", "sha-2-512-256"}
LOCAL Ni == {"sha-1-160", "sha-2-224", "sha-2-256"}
LOCAL Of1(pre, names, post) == {pre \o n \o post : n \in names}
LOCAL Basic1(pre) == Of1(pre, Sha, "")
LOCAL More1(pre) == Of1(pre, Sha, "-sw") \cup Of1(pre, Ni, "-hw-x86-64-ni")

Groups == {"codec", "hash", "mac", "kdf-hkdf", "kdf-pbkdf-2", "cipher", "aead"}

Basic(g) ==
    CASE g = "codec" -> {"codec-base-16-encode", "codec-base-16-decode", "codec-base-64-encode", "codec-base-64-decode"}
      [] g = "hash" -> Basic1("hash-")
      [] g = "mac" -> Basic1("mac-hmac-") \cup {"mac-poly-1305"}
      [] g = "kdf-hkdf" -> Basic1("kdf-hkdf-hmac-")
      [] g = "kdf-pbkdf-2" -> Basic1("kdf-pbkdf-2-hmac-")
      [] g = "cipher" -> {"cipher-chacha-20-encrypt", "cipher-chacha-20-decrypt"}
      [] g = "aead" -> {"aead-chacha-20-poly-1305-encrypt", "aead-chacha-20-poly-1305-decrypt"}

More(g) ==
    CASE g = "codec" -> {}
      [] g = "hash" -> More1("hash-")
      [] g = "mac" -> More1("mac-hmac-") \cup {"mac-poly-1305-sw"}
      [] g = "kdf-hkdf" -> More1("kdf-hkdf-hmac-")
      [] g = "kdf-pbkdf-2" -> More1("kdf-pbkdf-2-hmac-")
      [] g = "cipher" -> {"cipher-chacha-20-" \o b \o d : b \in {"sw", "hw-x86-64-ssse-3", "hw-x86-64-avx-2"}, d \in {"-encrypt", "-decrypt"}}
      [] g = "aead" -> {"aead-chacha-20-sw-poly-1305-sw-encrypt", "aead-chacha-20-sw-poly-1305-sw-decrypt"}

Parameters(g) ==
    CASE g = "codec" -> {"bytes-size"}
      [] g = "hash" -> {"message-size"}
      [] g = "mac" -> {"key-size", "message-size"}
      [] g = "kdf-hkdf" -> {"ikm-size", "salt-size", "info-size", "key-size"}
      [] g = "kdf-pbkdf-2" -> {"ikm-size", "salt-size", "iterations", "key-size"}
      [] g = "cipher" -> {"bytes-size"}
      [] g = "aead" -> {"aad-size", "bytes-size"}

\* What counts as processed by one call.
Inputs(g) ==
    CASE g \in {"codec", "cipher"} -> {"bytes-size"}
      [] g \in {"hash", "mac"} -> {"message-size"}
      [] g \in {"kdf-hkdf", "kdf-pbkdf-2"} -> {"key-size"}
      [] g = "aead" -> {"aad-size", "bytes-size"}

-----------------------------------------------------------------------------
(* Outcomes.                                                               *)

Failure == [kind |-> "failure"]

\* Sizes that may be more than there is memory for.
LOCAL Affordable(v) == Less(v, "100000000")

Bench(ps) ==
    LET rt == ValueOr(ps, "repeats-time", "1024")
        mhz == ValueOr(ps, "cpu-clock", "0")
    IN  [time |-> IF rt = "0" THEN "1" ELSE rt,
         warm |-> ValueOr(ps, "repeats-warm", "128"),
         \* Beyond 64 bit arithmetic it is not specified.
         wild |-> Len(mhz) > 13,
         \* In Hz.
         clock |-> IF mhz = "0" THEN "0" ELSE mhz \o "000000"]

\* The outcome of an argument list, when tokens with one dash are ignored or not.
Outcome(args, lenient) ==
    LET c1 == NextCommand(args, 0)
        top == ParamsFrom(args, 0, lenient)
        verbose == Option(top, "verbose")
        Names(g) == Basic(g) \cup (IF Option(top, "advanced") THEN More(g) ELSE {})
        c2 == NextCommand(args, c1)
        c3 == NextCommand(args, c2)
        bp == ParamsFrom(args, c1, lenient)
        ps == ParamsFrom(args, c3, lenient)
        Selected(g) == {n \in Names(g) : Matches(args[c3], n)}
        active == {g \in Groups : Selected(g) # {}}
    IN  IF c1 = 0 THEN Failure
        ELSE IF args[c1] = "version" THEN [kind |-> "version"]
        ELSE IF args[c1] # "benchmark" \/ c2 = 0 THEN Failure
        ELSE IF args[c2] # "primitive" \/ c3 = 0 THEN Failure
        ELSE IF args[c3] = "list" THEN [kind |-> "list", names |-> UNION {Names(g) : g \in Groups}]
        ELSE IF \E g \in active : \E p \in Parameters(g) : Value(ps, p) = "bad" THEN Failure
        ELSE [kind |-> "report", verbose |-> verbose, bench |-> Bench(bp),
              affordable |-> \A g \in active : \A p \in Parameters(g) : Affordable(Value(ps, p)),
              groups |-> {[group |-> g, names |-> Selected(g), inputs |-> Inputs(g), values |-> [p \in Parameters(g) |-> Value(ps, p)]] : g \in active}]

-----------------------------------------------------------------------------
(* Runs: r.args, r.exit (a negative number: killed by a signal or did not  *)
(* end), r.err (something was written to the error stream), r.out:         *)
(* "none", "text" (r.lines) or "json" (r.doc), r.step: nanoseconds         *)
(* between two readings of the clock.  Numbers in r.doc are records        *)
(* [neg, num, exp]: a decimal num times 10^exp, strings [str], arrays      *)
(* [arr].                                                                  *)

\* Of documents.
LOCAL Field(d, k) == IF k \in DOMAIN d THEN d[k] ELSE [x \in {} |-> x]
LOCAL IsNumber(x) == DOMAIN x = {"neg", "num", "exp"}
LOCAL Is(x, v) == IsNumber(x) /\ ~x.neg /\ x.exp = 0 /\ Plain(x.num) = v
LOCAL Holds(x, f) == DOMAIN x = DOMAIN f /\ \A k \in DOMAIN f : Is(x[k], f[k])

Result(r, o) == IF o.verbose THEN Field(r.doc, "result") ELSE r.doc
Results(r, o) == Field(Field(Result(r, o), "benchmark"), "primitive")

Expected(o) == UNION {g.names : g \in o.groups}
GroupOf(o, n) == CHOOSE g \in o.groups : n \in g.names

BenchFields(b) == IF b.clock = "0" THEN ("repeats-time" :> b.time) @@ ("repeats-warm" :> b.warm)
                  ELSE ("repeats-time" :> b.time) @@ ("repeats-warm" :> b.warm) @@ ("cpu-clock" :> b.clock)

Echoed(r, o) ==
    \A n \in Expected(o) :
        LET c == Field(Results(r, o)[n], "config")
        IN  /\ Holds(Field(c, "input"), GroupOf(o, n).values)
            /\ ~o.bench.wild => Holds(Field(c, "benchmark"), BenchFields(o.bench))

-----------------------------------------------------------------------------
(* What the application does with the library.  r.work: for every interval *)
(* between two readings of the clock the operations done in it: [alias of  *)
(* the algorithm, op, count, sizes: sums over all operations].             *)

RECURSIVE Under(_)
Under(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "-" THEN "_" ELSE Ch(s, 1)) \o Under(After(s, 1))

EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Cut(s, n) == SubSeq(s, 1, Len(s) - n)

Alias(g, n) == Under(CASE g = "codec" -> Cut(n, 7) [] g \in {"cipher", "aead"} -> Cut(n, 8) [] OTHER -> n)

\* Operations of one call of the benchmark n and their sizes, for parameters v.
OneCall(g, n, v) ==
    LET V(p) == Of(v[p])
        way == IF EndsWith(n, "-encrypt") THEN "encrypt" ELSE "decrypt"
        bytes == Small(v["bytes-size"])
    IN  CASE g = "hash" -> "update" :> <<V("message-size")>>
          [] g = "mac" -> ("initialize" :> <<V("key-size")>>) @@ ("update" :> <<V("message-size")>>)
          [] g = "kdf-hkdf" -> ("initialize" :> <<V("ikm-size"), V("salt-size"), V("info-size")>>) @@ ("derive" :> <<V("key-size")>>)
          [] g = "kdf-pbkdf-2" -> ("initialize" :> <<V("ikm-size"), V("salt-size"), V("iterations")>>) @@ ("derive" :> <<V("key-size")>>)
          [] g = "cipher" -> way :> <<V("bytes-size")>>
          [] g = "aead" -> ("aad" :> <<V("aad-size")>>) @@ (way :> <<V("bytes-size")>>)
          [] g = "codec" -> IF EndsWith(n, "-encode") THEN "encode" :> <<V("bytes-size")>>
                            ELSE "decode" :> <<OfNat(IF Alias(g, n) = "codec_base_16" THEN 2 * bytes ELSE 4 * ((bytes + 2) \div 3))>>

\* Operations that process something.
Main == {"update", "derive", "aad", "encrypt", "decrypt", "encode", "decode"}

\* Sums of the sizes of the operation op in a segment.
SizeIn(seg, alias, op, i) ==
    LET e == {k \in DOMAIN seg : seg[k].alias = alias /\ seg[k].op = op}
    IN  IF e = {} THEN <<>> ELSE LET x == seg[CHOOSE k \in e : TRUE].sizes IN IF i \in DOMAIN x THEN Of(x[i]) ELSE <<>>

Timed(seg, g, n, v, time) ==
    LET a == Alias(g, n)
        one == OneCall(g, n, v)
    IN  /\ seg # <<>>
        /\ \A k \in DOMAIN seg : seg[k].alias = a /\ (seg[k].op \in Main => seg[k].op \in DOMAIN one)
        /\ \A op \in DOMAIN one : \A i \in DOMAIN one[op] : SizeIn(seg, a, op, i) = Mul(Of(time), one[op][i])

RECURSIVE SizesBefore(_, _, _, _, _)
SizesBefore(work, j, a, op, i) == IF j = 1 THEN <<>> ELSE Add(SizeIn(work[j - 1], a, op, i), SizesBefore(work, j - 1, a, op, i))

\* a <= b
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A k \in i + 1 .. Len(a) : a[k] = b[k]))

\* Every selected benchmark was run as often as told with what was given, after as many calls to warm up.
Worked(work, o) ==
    \A n \in UNION {g.names : g \in o.groups} :
        LET x == CHOOSE x \in o.groups : n \in x.names
            one == OneCall(x.group, n, x.values)
            a == Alias(x.group, n)
        IN  \E j \in DOMAIN work :
                /\ Timed(work[j], x.group, n, x.values, o.bench.time)
                /\ \A op \in DOMAIN one : \A i \in DOMAIN one[op] :
                        AtMost(Mul(Of(o.bench.warm), one[op][i]), SizesBefore(work, j, a, op, i))

\* Nothing is said where the operations are not noted.
Works(r, o) == "work" \in DOMAIN r /\ (\E j \in DOMAIN r.work : r.work[j] # <<>>) /\ o.affordable => Worked(r.work, o)

-----------------------------------------------------------------------------
\* C18: what ran is what was selected, with what was given.
Selects(r, o) ==
    CASE o.kind = "failure" -> r.exit # 0 /\ r.out = "none" /\ r.err
      [] o.kind = "version" -> r.exit = 0 /\ r.out = "text"
      [] o.kind = "list" -> /\ r.exit = 0 /\ r.out = "text"
                            /\ Len(r.lines) = Cardinality(o.names) /\ Set(r.lines) = o.names
      [] o.kind = "report" -> \/ /\ r.exit = 0
                                 /\ r.out = "json" => DOMAIN Results(r, o) = Expected(o) /\ Echoed(r, o) /\ Works(r, o)
                                 /\ r.out \in {"json", "other"}
                              \/ ~o.affordable /\ r.exit # 0 /\ r.out = "none" /\ r.err

\* The metrics m of a benchmark that took ns nanoseconds for b.time calls with so many bytes.
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN Add(x[2], Sum(s \ {x}))

Rate(x, a, b) == IsNumber(x) /\ ~x.neg /\ Close(x.num, x.exp, a, b)

Metrics(m, b, bytes, ns) ==
    LET time == Of(b.time)
        processed == Mul(time, bytes)
        clock == Of(b.clock)
        billion == Pow10(9)
    IN  b.wild \/
        /\ DOMAIN m = {"duration"} \cup (IF processed # <<>> /\ ns # <<>> THEN {"throughput"} ELSE {})
                                   \cup (IF processed # <<>> /\ clock # <<>> THEN {"cpu"} ELSE {})
        /\ DOMAIN m.duration = {"nanoseconds_per_call"}
        /\ Rate(m.duration.nanoseconds_per_call, ns, time)
        /\ "throughput" \in DOMAIN m =>
              /\ DOMAIN m.throughput = {"gigabytes_per_second", "megabytes_per_second"}
              /\ Rate(m.throughput.gigabytes_per_second, processed, ns)
              /\ Rate(m.throughput.megabytes_per_second, Mul(processed, Pow10(3)), ns)
        /\ "cpu" \in DOMAIN m =>
              /\ DOMAIN m.cpu = {"cycles_per_call", "cycles_per_byte"}
              /\ Rate(m.cpu.cycles_per_call, Mul(clock, ns), Mul(billion, time))
              /\ Rate(m.cpu.cycles_per_byte, Mul(clock, ns), Mul(billion, processed))

RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Joined(Tail(q))

\* C19: the run ends in order, its report is consistent.
Consistent(r, o) ==
    /\ r.exit >= 0
    /\ o.kind = "report" /\ r.exit = 0 =>
          /\ r.out = "json"
          /\ \A n \in DOMAIN Results(r, o) \cap Expected(o) :
                LET g == GroupOf(o, n)
                    bytes == Sum({<<p, Of(g.values[p])>> : p \in g.inputs})
                IN  \E k \in 1 .. 8 : Metrics(Field(Results(r, o)[n], "metrics"), o.bench, bytes, Mul(OfNat(k), Of(r.step)))
          /\ o.verbose =>
                /\ Field(Field(r.doc, "command"), "args") = [arr |-> [i \in DOMAIN r.args |-> [str |-> r.args[i]]]]
                /\ Field(Field(r.doc, "command"), "dump") = [str |-> Joined(r.args)]

Admits(r, aspect) ==
    /\ r.exit >= 0
    /\ \E lenient \in (IF \E i \in DOMAIN r.args : StartsWith(r.args[i], "-") /\ ~IsParameter(r.args[i]) THEN BOOLEAN ELSE {FALSE}) :
          LET o == TLCEval(Outcome(r.args, lenient))
          IN  IF aspect = "selection" THEN Selects(r, o) ELSE Consistent(r, o)
=============================================================================
