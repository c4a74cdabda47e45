"""C09: every backend computes the same function."""
from mv.core import *
from mv.plans import *
from mv import types

NI = ["sha_1_160", "sha_2_224", "sha_2_256"]


def check(c):
    design(c, "CipherDesign")
    tys = [t for a in HASHES for t in types.hash_types(a) + types.hmac_types(a)]
    tys += [t for a in NI for t in types.hkdf_types(a) + types.pbkdf_types(a)]
    tys += types.poly_types() + types.cipher_types() + types.aead_types()
    exe = build_interp(c, "interp", tys)
    blocks(c, exe)
    contents(c, exe)
    strides(c, exe)
    derived(c, exe)
    large(c, exe)
    convention(c)
    windows(c)
    c.note(backends=sorted({t[1] for t in tys}))
    c.assumptions += ["Backends that this CPU cannot run are not executed: %s." %
                      (", ".join(x for x in ("_hw_x86_64_ni", "_hw_x86_64_ssse_3", "_hw_x86_64_avx_2") if not types.usable(x)) or "none here"),
                      "Contents of blocks are sampled (random, and long runs of equal bits)."]


def blocks(c, exe):
    """Any number of blocks at once, at any alignment, with and without a filled buffer."""
    w = World()
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        k = 36 if alg in NI else 12
        m = w.stream(c.rng.randbytes(k * b))
        w.use_hash(alg, m, k * b)
        for kind, name, _ in types.hash_types(alg):
            for i in range(0, k):
                s = Session(group=alg)
                for f in ([0, c.rng.randrange(1, b)] if c.quick else [0] + [c.rng.randrange(1, b) for _ in range(8)]):
                    for d in (0, 1):
                        n = max(0, min(i * b - f + d, k * b - f))
                        s.new(1, kind, name, alg).upd(1, (m, 0, f)).upd(1, (m, f, n, "p%d" % c.rng.randrange(64)))
                        s.dig(1, DIGEST[alg]).drop(1)
                ss.append(s)
    # Many blocks at once: backends may take them in groups, of any size.
    for alg in HASHES:
        b = BLOCK[alg]
        ni = alg in NI
        counts = (64, 128, 256, 512) if ni else (64,)
        if not c.quick:
            counts += (1000, 1024, 2048, 4096)
        m = w.stream(pattern(c.rng, (max(counts) + 4) * b))
        w.use_hash(alg, m, w.size(m), lazy=True)
        for kind, name, _ in types.hash_types(alg):
            for k in counts:
                for x in (-1, 0, 1, 2):
                    s = Session(group=(alg, "many"))
                    f = c.rng.randrange(b)
                    n = (k + x) * b - f + c.rng.randrange(2)
                    s.new(1, kind, name, alg)
                    if f:
                        s.upd(1, (m, 0, f))
                    s.upd(1, (m, f, n, place(c.rng))).dig(1, DIGEST[alg]).drop(1)
                    # From the start of a buffer, which is what a message in one piece does.
                    s.new(1, kind, name, alg).upd(1, (m, 0, (k + x) * b, place(c.rng))).dig(1, 64)
                    ss.append(s)
    conform(c, exe, w, ss, "blocks", shards=8)


def contents(c, exe):
    """Contents with long carries, through every backend, all of them in one session."""
    w = World()
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        tys = types.hash_types(alg)
        for i in range((20 if alg in NI else 6) if c.quick else 300):
            m = w.stream(pattern(c.rng, c.rng.randrange(9 * b)))
            s = Session(group=(alg, i % 4))
            for o, (kind, name, _) in enumerate(tys):
                s.new(o + 1, kind, name, alg)
            a = 0
            for n in cut(c.rng, w.size(m), 4):
                for o in range(len(tys)):
                    s.upd(o + 1, (m, a, n, place(c.rng)))
                a += n
            for o in range(len(tys)):
                s.dig(o + 1, 64)
            ss.append(s)
    conform(c, exe, w, ss, "contents")


def strides(c, exe):
    """The cipher: any size up to several strides of the widest backend, from every fill, in place
    or not, with counters that wrap inside of a stride."""
    w = World()
    ss = []
    top = 2200
    m = w.stream(pattern(c.rng, top))
    tys = types.cipher_types()
    for j in range(3 if c.quick else 12):
        k = (w.stream(pattern(c.rng, 32) if j else c.rng.randbytes(32)), 0, 32)
        ctr = [c.rng.getrandbits(32), 2 ** 32 - 11, 2 ** 32 - 3][j % 3]
        v = (w.stream(ctr.to_bytes(4, "little") + pattern(c.rng, 12)), 0, 16)
        w.use_ks("cipher", k, v, top + 64)
        for f in range(0, 64, 1 if not c.quick else 5):
            ns = sorted(c.rng.sample(range(0, 2100), 14) + [64 * x - f for x in c.rng.sample(range(1, 33), 5)])
            for n in (ns if c.quick else range(f % 5, 2100, 5)):
                s = Session(group=(j, f % 3))
                for o, (kind, name, _) in enumerate(tys):
                    s.new(o + 1, kind, name, "chacha_20").pair("cip", o + 1, k, v)
                    s.crypt("enc", o + 1, (m, 0, f, place(c.rng)), place(c.rng))
                    s.crypt("enc", o + 1, (m, f, max(n, 0), place(c.rng)), "i" if n % 3 == 0 else place(c.rng))
                ss.append(s)
    conform(c, exe, w, ss, "strides")


def derived(c, exe):
    """HMAC, HKDF, PBKDF2 and AEAD over every backend."""
    w = World()
    ss = []
    m = w.stream(c.rng.randbytes(900))
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        for i in range(5 if c.quick else 60):
            s = Session(group=(alg, i))
            a, d = c.rng.randrange(2 * b), c.rng.randrange(4 * b)
            x, y = c.rng.randrange(900 - a), c.rng.randrange(900 - d)
            for o, (kind, name, _) in enumerate(types.hmac_types(alg)):
                s.new(o + 1, kind, name, alg).key(o + 1, (m, x, a, place(c.rng)))
                s.upd(o + 1, (m, y, d, place(c.rng))).dig(o + 1, 64)
            for o in range(len(types.hmac_types(alg))):
                s.drop(o + 1)
            if alg in NI:
                z, n = c.rng.randrange(40), c.rng.randrange(3 * D)
                for o, (kind, name, _) in enumerate(types.hkdf_types(alg)):
                    s.new(o + 1, kind, name, alg).hkdf(o + 1, (m, x, a), (m, y, z), (m, z, d % b)).der(o + 1, n)
                for o in range(len(types.hkdf_types(alg))):
                    s.drop(o + 1)
                it = c.rng.randrange(1, 4)
                for o, (kind, name, _) in enumerate(types.pbkdf_types(alg)):
                    s.new(o + 1, kind, name, alg).pbk(o + 1, (m, x, a), (m, y, z), it).der(o + 1, n // 2)
            ss.append(s)
    for i in range(30 if c.quick else 400):
        s = Session(group=("aead", i % 4))
        a, p = c.rng.randrange(60), c.rng.randrange(800)
        for o, (kind, name, _) in enumerate(types.aead_types()):
            s.new(o + 1, kind, name, "chacha_20_poly_1305").pair("aead", o + 1, (m, i, 32), (m, 2 * i, 12))
            s.aad(o + 1, (m, i, a)).crypt("enc", o + 1, (m, i, min(p, 900 - i), place(c.rng)), place(c.rng)).dig(o + 1, 16)
        for o, (kind, name, _) in enumerate(types.poly_types()):
            s.new(o + 5, kind, name, "poly_1305").key(o + 5, (m, i, 32)).upd(o + 5, (m, 0, p)).dig(o + 5, 16)
        ss.append(s)
    conform(c, exe, w, ss, "derived")


def large(c, exe):
    """Millions of blocks in one call: backends count them, in registers of their own."""
    w = World()
    ss = []
    m = w.stream(c.rng.randbytes(300))
    for u in (2,) if c.quick else (2, 16):
        for alg in HASHES:
            for kind, name, _ in types.hash_types(alg):
                s = Session(group=alg)
                f = c.rng.randrange(1, BLOCK[alg])
                s.new(1, kind, name, alg).upd(1, (-1, 0, f)).upd(1, (-1, u, c.rng.randrange(200)))
                s.upd(1, (m, 0, c.rng.randrange(300))).dig(1, 64)
                ss.append(s)
        for kind, name, _ in types.poly_types():
            s = Session(group=u)
            s.new(1, kind, name, "poly_1305").key(1, (m, 0, 32)).upd(1, (-1, u, c.rng.randrange(200))).dig(1, 16)
            ss.append(s)
        for kind, name, _ in types.cipher_types():
            s = Session(group=name)
            s.new(1, kind, name, "chacha_20").pair("cip", 1, (m, 40, 32), (m, 80, 16))
            s.crypt("enc", 1, (m, 0, c.rng.randrange(64))).cryptz("encz", 1, u, c.rng.randrange(2000))
            s.crypt("enc", 1, (m, 0, c.rng.randrange(130)))
            ss.append(s)
        for kind, name, _ in types.aead_types():
            s = Session(group=name)
            s.new(1, kind, name, "chacha_20_poly_1305").pair("aead", 1, (m, 100, 32), (m, 140, 12))
            s.aad(1, (m, 0, 21)).cryptz("decz", 1, u, c.rng.randrange(2000)).crypt("dec", 1, (m, 0, 33)).dig(1, 16)
            ss.append(s)
    conform(c, exe, w, ss, "large", parts=8, shards=4, timeout=600)


def convention(c):
    """What a caller finds in the registers after a call, for any number of blocks."""
    tys = [t + (a,) for a in HASHES for t in types.hash_types(a)]
    tys += [t + ("poly_1305",) for t in types.poly_types()] + [t + ("chacha_20",) for t in types.cipher_types()]
    tys += [t + ("chacha_20_poly_1305",) for t in types.aead_types()]
    exe = build_interp(c, "interp_regs", [t[:3] for t in tys], flags=["-DREGISTERS"])
    w = World()
    top = 40 * 64
    m = w.stream(c.rng.randbytes(top + 100))
    k, v, n = (w.stream(c.rng.randbytes(32)), 0, 32), (w.stream(b"\xfe\xff\xff\xff" + c.rng.randbytes(12)), 0, 16), (m, 7, 12)
    w.use_ks("cipher", k, v, top + 64)
    ss = []
    for kind, name, _, alg in tys:
        for i in range(0, 40, 1 if kind == "cipher" or not c.quick else 3):
            s = Session(group=(alg, i % 3))
            s.new(1, kind, name, alg)
            x = (m, c.rng.randrange(90), min(i * 64 + c.rng.randrange(64), top), "p%d" % c.rng.randrange(64))
            if kind == "mac":
                s.key(1, k)
            elif kind == "cipher":
                s.pair("cip", 1, k, v)
            elif kind == "aead":
                s.pair("aead", 1, k, n)
            if kind != "hash":
                s.regs()
            if kind in ("hash", "mac"):
                s.upd(1, x).regs().dig(1, 64)
            else:
                s.crypt("enc", 1, x, "i" if i % 3 == 0 else place(c.rng)).regs().crypt("dec", 1, (m, 0, 9), place(c.rng))
            s.regs()
            ss.append(s)
    conform(c, exe, w, ss, "convention")


def windows(c):
    """The assembly as it is built for Windows, called as there; it keeps what a caller relies on there."""
    tys = [t + (a,) for a in NI for t in types.hash_types(a)]
    tys += [t + ("chacha_20",) for t in types.cipher_types()] + [t + ("chacha_20_poly_1305",) for t in types.aead_types()]
    exe = build_interp(c, "interp_windows", [t[:3] for t in tys], objs=windows_objs(c))
    w = World()
    top = 40 * 64
    m = w.stream(c.rng.randbytes(top + 100))
    k, v, n = (w.stream(c.rng.randbytes(32)), 0, 32), (w.stream(b"\xfd\xff\xff\xff" + c.rng.randbytes(12)), 0, 16), (m, 9, 12)
    w.use_ks("cipher", k, v, 2 * top + 300)
    ss = []
    for kind, name, _, alg in tys:
        for i in range(0, 40):
            s = Session(group=(alg, i % 3))
            s.new(1, kind, name, alg)
            x = (m, c.rng.randrange(90), min(i * 64 + c.rng.randrange(64), top), place(c.rng))
            if kind == "hash":
                s.upd(1, x).dig(1, 64)
            else:
                s.pair("cip" if kind == "cipher" else "aead", 1, k, v if kind == "cipher" else n)
                s.crypt("enc", 1, x, "i" if i % 3 == 0 else place(c.rng)).crypt("dec", 1, (m, 0, c.rng.randrange(200)), place(c.rng))
            ss.append(s)
    conform(c, exe, w, ss, "windows")
