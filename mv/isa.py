"""Which instruction set extension an instruction belongs to, from its disassembly (Intel syntax)."""
import re

SETS = {
    "sse3": "addsubpd addsubps haddpd haddps hsubpd hsubps lddqu movddup movshdup movsldup fisttp",
    "ssse3": "pshufb phaddw phaddd phaddsw phsubw phsubd phsubsw pmaddubsw pmulhrsw psignb psignw psignd pabsb pabsw pabsd palignr",
    "sse4_1": "pblendvb pblendw blendpd blendps blendvpd blendvps pextrb pextrd pextrq pinsrb pinsrd pinsrq ptest pmovsxbw pmovsxbd "
              "pmovsxbq pmovsxwd pmovsxwq pmovsxdq pmovzxbw pmovzxbd pmovzxbq pmovzxwd pmovzxwq pmovzxdq pmulld pmuldq pminsb pminsd "
              "pminuw pminud pmaxsb pmaxsd pmaxuw pmaxud pcmpeqq packusdw roundss roundsd roundps roundpd dpps dppd insertps "
              "extractps movntdqa phminposuw mpsadbw",
    "sse4_2": "pcmpgtq pcmpestri pcmpestrm pcmpistri pcmpistrm crc32",
    "popcnt": "popcnt",
    "movbe": "movbe",
    "aes": "aesenc aesenclast aesdec aesdeclast aesimc aeskeygenassist",
    "pclmul": "pclmulqdq",
    "sha": "sha1rnds4 sha1nexte sha1msg1 sha1msg2 sha256rnds2 sha256msg1 sha256msg2",
    "bmi1": "andn bextr blsi blsmsk blsr",
    "bmi2": "bzhi mulx pdep pext rorx sarx shlx shrx",
    "adx": "adcx adox",
    "sse4a": "extrq insertq movntsd movntss",
    "gfni": "gf2p8affineqb gf2p8affineinvqb gf2p8mulb",
}
OF = {m: s for s, l in SETS.items() for m in l.split()}

# Instructions with a v that are AVX even with ymm operands (floating point and moves).
AVX_ANY = re.compile(r"v(mov(?!ntdqa)|lddqu|add[ps]|sub[ps]|mul[ps]|div[ps]|sqrt|max[ps]|min[ps]|and[np]?|andn?p|or?p[sd]$|orp|xorp|"
                     r"cmp|comi|ucomi|cvt|blendp|blendvp|broadcast(f128|s)|extractf|insertf|perm2f|permilp|round|shufp|unpckh?l?p|"
                     r"unpcklp|unpckhp|test|zero|hadd|hsub|dpp|maskmovp|ldmxcsr|stmxcsr|rcp|rsqrt|addsub|insertps|extractps|ptest)")
AVX2_ALWAYS = re.compile(r"v(pbroadcast|perm2i|permq|permd|permps|permpd|inserti|extracti|psllv|psrlv|psrav|pgather|gather|pmaskmov|pblendd|broadcasti)")


def extension(line):
    """line: mnemonic and operands; returns the name of the extension or None for the baseline."""
    f = line.split(None, 1)
    if not f:
        return None
    m = f[0]
    while m in ("rep", "repz", "repnz", "lock", "bnd", "notrack", "data16", "rex.W", "{vex}"):
        f = f[1].split(None, 1) if len(f) > 1 else [""]
        m = f[0]
    ops = f[1].split("#")[0] if len(f) > 1 else ""
    if m in ("cpuid", "xgetbv"):
        return m
    if m in OF:
        return OF[m]
    if m.startswith("v") and m not in ("verr", "verw"):
        if "zmm" in ops or "{k" in ops or re.search(r"[xy]mm(1[6-9]|2\d|3[01])\b", ops) or re.match(r"v(ternlog|pternlog|pro[lr]|mov(dqu|dqa)(8|16|32|64))", m):
            return "avx512"
        if m.startswith("vfm") or m.startswith("vfnm"):
            return "fma"
        if m.startswith("vaes"):
            return "aes" if "ymm" not in ops else "vaes"
        if m.startswith("vpclmul"):
            return "pclmul"
        if AVX2_ALWAYS.match(m):
            return "avx2"
        if m == "vbroadcastss" or m == "vbroadcastsd":
            return "avx" if "[" in ops else "avx2"
        if "ymm" in ops and not AVX_ANY.match(m):
            return "avx2"
        return "avx"
    if m.startswith("k") and "k" in ops and re.match(r"k(mov|or|and|xor|not|test|shift|unpck|add)", m):
        return "avx512"
    return None
