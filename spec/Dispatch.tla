------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Processors, and what a program may do on them.                          *)
(*                                                                         *)
(* A processor c, together with its operating system, is                   *)
(*   max   the highest CPUID leaf,                                         *)
(*   l1c   the bits set in ECX of leaf 1, l7b those in EBX of leaf 7,      *)
(*   xcr0  the bits set in XCR0: the register states that the system keeps *)
(***************************************************************************)
EXTENDS Naturals

Leaf1Bit == [sse3 |-> 0, pclmul |-> 1, ssse3 |-> 9, fma |-> 12, sse4_1 |-> 19, sse4_2 |-> 20,
             movbe |-> 22, popcnt |-> 23, aes |-> 25, avx |-> 28]
Leaf7Bit == [bmi1 |-> 3, avx2 |-> 5, bmi2 |-> 8, avx512 |-> 16, adx |-> 19, sha |-> 29]
Osxsave == 27

Extensions == DOMAIN Leaf1Bit \cup DOMAIN Leaf7Bit

\* Extensions whose registers the system has to enable.
OfYmm == {"avx", "avx2", "fma"}

Has(c, x) == \/ x \in DOMAIN Leaf1Bit /\ c.max >= 1 /\ Leaf1Bit[x] \in c.l1c
             \/ x \in DOMAIN Leaf7Bit /\ c.max >= 7 /\ Leaf7Bit[x] \in c.l7b

Enabled(c, states) == c.max >= 1 /\ Osxsave \in c.l1c /\ states \subseteq c.xcr0

\* What processor and system report together.
Reported(c) == {x \in Extensions :
    /\ Has(c, x)
    /\ x \in OfYmm => Enabled(c, {1, 2})
    /\ x = "avx512" => Enabled(c, {1, 2, 5, 6, 7})}

\* Processors that exist have the older extensions, too.
Plausible(c) == /\ Has(c, "ssse3") => Has(c, "sse3")
                /\ Has(c, "sse4_1") => Has(c, "ssse3")
                /\ Has(c, "sse4_2") => Has(c, "sse4_1")
                /\ Has(c, "avx") => Has(c, "sse4_2")
                /\ Has(c, "avx2") => Has(c, "avx")
                /\ Has(c, "sha") => Has(c, "sse4_2")

\* A default implementation for which there are accelerated backends with the
\* given needs (sets of extensions that they execute) has executed some.
Suits(c, needs, executed) ==
    /\ executed \subseteq Reported(c)
    /\ Plausible(c) /\ (\E n \in needs : n \subseteq Reported(c)) => executed # {}

-----------------------------------------------------------------------------
\* What a program asks for with the options of a primitive: enf and pref name
\* a backend or are "".  needs: what each accelerated backend executes, by name;
\* the portable backend is "sw" and executes no extension.
BackendNeeds(needs, b) == IF b = "sw" THEN {} ELSE needs[b]

Selected(c, needs, enf, pref, executed) ==
    CASE enf # "" -> executed = BackendNeeds(needs, enf)
      [] pref # "" /\ Plausible(c) /\ BackendNeeds(needs, pref) \subseteq Reported(c) -> executed = BackendNeeds(needs, pref)
      [] OTHER -> Suits(c, {needs[b] : b \in DOMAIN needs}, executed)

\* What is known of backends by their names: which extensions they are there for.
Named(b, executed) ==
    CASE b = "sw" -> executed = {}
      [] b = "hw_x86_64_ni" -> "sha" \in executed
      [] b = "hw_x86_64_ssse_3" -> "ssse3" \in executed /\ executed \cap OfYmm = {}
      [] b = "hw_x86_64_avx_2" -> "avx2" \in executed
=============================================================================
