"""C14: operations touch only the memory they are given."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    tys = [t for a in HASHES for t in types.hash_types(a) + types.hmac_types(a)]
    tys += [t for a in ("sha_1_160", "sha_2_256", "sha_2_512") for t in types.hkdf_types(a) + types.pbkdf_types(a)]
    tys += types.poly_types() + types.cipher_types() + types.aead_types()
    (exe, w), plain = parallel([lambda: build_tracer(c, "tracer", tys), lambda: build_interp(c, "interp", tys)])
    extra = [w]
    absorb(c, exe, extra, tys)
    keyed(c, exe, extra, tys)
    crypt(c, exe, extra, tys)
    whole(c, exe, extra, tys)
    codec(c, exe, extra)
    bulk(c, plain, tys)
    c.assumptions += ["Accesses to the operands of a call are recorded one by one with their widths; contents are sampled."]


def at(rng):
    """At the end, at the start, or anywhere in accessible memory."""
    return rng.choice(["e", "p0", "p%d" % rng.randrange(64), "p%d" % rng.randrange(4000)])


def by(tys, *kinds):
    return [t for t in tys if t[0] in kinds]


def alg_of(name):
    for a in sorted(HASHES, key=len, reverse=True):
        if a in name:
            return a
    return "chacha_20_poly_1305" if name.startswith("aead") else name.split("_sw")[0].split("_hw")[0]


def absorb(c, exe, extra, tys):
    """Hashes and MACs: sizes and fills of the buffer."""
    w = World()
    m = w.stream(c.rng.randbytes(1400))
    ss = []
    for kind, name, _ in by(tys, "hash", "mac"):
        alg = alg_of(name)
        b = BLOCK[alg]
        key = (m, 7, 32)
        if kind == "hash":
            w.use_hash(alg, m, 1400, lazy=True)
        for i in range(6 if c.quick else 60):
            s = Session(group=alg)
            s.new(1, kind, name, alg)
            for j in range(8):
                if kind == "mac":
                    s.key(1, key)
                else:
                    s.rst(1)
                f = c.rng.choice([0, 0, 1, b - 1, c.rng.randrange(b)])
                n = c.rng.choice([0, 1, b - f - 1, b - f, b - f + 1, 2 * b - f, 2 * b - f + 1, 3 * b, c.rng.randrange(3 * b), c.rng.randrange(9 * b)])
                n = max(0, n)
                s.upd(1, (m, 0, f, at(c.rng))).upd(1, (m, f, n, "z" if n == 0 and j % 2 else at(c.rng)))
            s.dig(1, c.rng.choice([DIGEST[alg], c.rng.randrange(DIGEST[alg] + 1), 100]), at(c.rng))
            s.dig(1, 0, "z")
            ss.append(s)
    conform(c, exe, w, ss, "absorb", extra=extra)


def keyed(c, exe, extra, tys):
    """Keys of MACs; all operands of key derivations."""
    w = World()
    m = w.stream(c.rng.randbytes(1200))
    ss = []
    for kind, name, _ in by(tys, "mac", "hkdf", "pbkdf"):
        alg = alg_of(name)
        b, D = BLOCK[alg], DIGEST[alg]
        for i in range(3 if c.quick else 40):
            s = Session(group=(alg, i))
            s.new(1, kind, name, alg)
            for n in c.rng.sample([0, 1, 16, 31, 32, 33, b - 1, b, b + 1, 2 * b + 1, c.rng.randrange(300)], 5 if kind == "mac" else 2):
                a = (m, c.rng.randrange(900), n, "z" if n == 0 and i % 2 else at(c.rng))
                if kind == "mac":
                    s.key(1, a)
                    continue
                x, y = [(m, c.rng.randrange(900), k, at(c.rng)) for k in (c.rng.randrange(2 * b), c.rng.choice([0, 1, c.rng.randrange(2 * b)]))]
                if kind == "hkdf":
                    s.hkdf(1, *c.rng.sample([a, x, y], 3))
                else:
                    s.pbk(1, *c.rng.sample([a, x], 2), c.rng.randrange(1, 3))
                for k in c.rng.sample([0, 1, c.rng.randrange(D), D, c.rng.randrange(3 * D)], 3):
                    s.der(1, k, at(c.rng))
            ss.append(s)
    conform(c, exe, w, ss, "keyed", extra=extra)


def crypt(c, exe, extra, tys):
    """Cipher and AEAD objects: sizes around strides, from any fill, in place or not."""
    w = World()
    m = w.stream(c.rng.randbytes(2600))
    k = (w.stream(c.rng.randbytes(32)), 0, 32)
    v = (w.stream(c.rng.randbytes(16)), 0, 16)
    w.use_ks("cipher", k, v, 2600)
    w.use_ks("aead", k, v[:2] + (12,), 2600)
    ss = []
    for kind, name, _ in by(tys, "cipher", "aead"):
        for i in range(40 if c.quick else 800):
            s = Session(group=(name, i % 2))
            s.new(1, kind, name, alg_of(name))
            s.pair("cip" if kind == "cipher" else "aead", 1, k + (at(c.rng),), v[:2] + (16 if kind == "cipher" else 12, at(c.rng)))
            if kind == "aead":
                for n in cut(c.rng, c.rng.randrange(70), 3):
                    s.aad(1, (m, c.rng.randrange(100), n, at(c.rng)))
            f = c.rng.choice([0, c.rng.randrange(64)])
            n = c.rng.choice([0, 1, 64 - f, c.rng.randrange(130), c.rng.randrange(600), c.rng.randrange(2000), 64 * c.rng.randrange(30) + c.rng.randrange(-1, 2) - f])
            n = max(0, n)
            for x in (f, n):
                s.crypt(c.rng.choice(["enc", "dec"]), 1, (m, c.rng.randrange(500), x, "z" if x == 0 else at(c.rng)),
                        c.rng.choice(["i", at(c.rng), "z" if x == 0 else "e"]))
            if kind == "aead":
                s.dig(1, c.rng.randrange(18), at(c.rng)).ver(1, (m, 0, c.rng.choice([0, 15, 16, 17]), at(c.rng)), c.rng.randrange(3))
            ss.append(s)
        s = Session(group=(name, "pairs"))
        s.new(1, kind, name, alg_of(name))
        for n in list(range(18)) + [31, 32, 33, 48, 64, 65]:
            for a, b in ((n, 12), (32, n)):
                s.pair("cip" if kind == "cipher" else "aead", 1, k[:2] + (min(a, 32), at(c.rng)), (m, 5, b, at(c.rng)))
                s.pair("cip" if kind == "cipher" else "aead", 1, (m, 3, a, at(c.rng)), (m, 5, b, at(c.rng)))
        ss.append(s)
    conform(c, exe, w, ss, "crypt", extra=extra)


def whole(c, exe, extra, tys):
    """Sealing and opening in one call, authentic and not."""
    w = World()
    m = w.stream(c.rng.randbytes(1200))
    k, v = (m, 0, 32), (m, 32, 12)
    w.use_ks("aead", k, v, 1200)
    ss = []
    for kind, name, _ in by(tys, "aead"):
        for i in range(60 if c.quick else 1200):
            s = Session(group=(name, i % 3))
            a, p = c.rng.randrange(60), c.rng.choice([0, 1, c.rng.randrange(100), c.rng.randrange(900)])
            s.seal(name, k + (at(c.rng),), v + (at(c.rng),), (m, 2, a, at(c.rng)), (m, 9, p, c.rng.choice(["i", at(c.rng)])), 0, 100, 101)
            for t in (16, 16, c.rng.randrange(16), 17):
                if t == 17:
                    s.madd(101, [0])
                s.open(name, k + (at(c.rng),), v + (at(c.rng),), (m, 2, a, at(c.rng)), (100, 0, p, c.rng.choice(["i", at(c.rng)])), (101, 0, t, at(c.rng)), c.rng.randrange(3))
            if p:
                s.mflip(100, p, 1)
                s.open(name, k + (at(c.rng),), v + (at(c.rng),), (m, 2, a, at(c.rng)), (100, 0, p, c.rng.choice(["i", at(c.rng)])), (101, 0, 16, at(c.rng)), c.rng.randrange(3))
            ss.append(s)
    conform(c, exe, w, ss, "whole", extra=extra)


def codec(c, exe, extra):
    w = World()
    a = w.stream(c.rng.randbytes(600))
    import base64
    texts = []
    for i in range(160 if c.quick else 4000):
        n = c.rng.choice([0, 1, 2, 3, 4, 5, c.rng.randrange(20), c.rng.randrange(90)])
        b = c.rng.randbytes(n)
        for k, t in (("base_16", b.hex().encode()), ("base_64", base64.b64encode(b))):
            q = c.rng.randrange(4)
            if q == 0 and t:
                t = t[:c.rng.randrange(len(t))]
            elif q == 1 and t:
                x = c.rng.randrange(len(t))
                t = t[:x] + bytes([c.rng.choice([0, 33, 61, 255, c.rng.randrange(256)])]) + t[x + 1:]
            texts.append((k, t, n))
    m = w.stream(b"".join(t for _, t, _ in texts))
    ss = []
    o = 0
    for i, (k, t, n) in enumerate(texts):
        if i % 10 == 0:
            s = Session(group=i % 8)
            ss.append(s)
        r = (m, o, len(t))
        o += len(t)
        s.cenc(k, (a, c.rng.randrange(400), n, at(c.rng)), at(c.rng))
        s.cesz(k, (a, 0, n, at(c.rng))).cdsz(k, r + (at(c.rng),))
        # Room for a good text; the decoder must not use more than it reports.
        s.cdec(k, r + (at(c.rng),), (len(t) + 1) // 2 if k == "base_16" else len(t) // 4 * 3 + 3, c.rng.randrange(3), at(c.rng))
    conform(c, exe, w, ss, "codec", extra=extra)


def bulk(c, exe, tys):
    """Larger calls, between inaccessible pages."""
    w = World()
    m = w.stream(c.rng.randbytes(9000))
    k = (w.stream(c.rng.randbytes(32)), 0, 32)
    v = (w.stream(c.rng.randbytes(16)), 0, 16)
    w.use_ks("cipher", k, v, 9000)
    w.use_ks("aead", k, v[:2] + (12,), 9000)
    ss = []
    for kind, name, _ in by(tys, "hash", "mac", "cipher", "aead"):
        alg = alg_of(name)
        if kind == "hash":
            w.use_hash(alg, m, 9000, lazy=True)
        for i in range(5 if c.quick else 120):
            s = Session(group=(alg, i % 4) if kind in ("cipher", "aead") else alg)
            s.new(1, kind, name, alg)
            n = c.rng.randrange(1000, 8000)
            f = c.rng.choice([0, c.rng.randrange(100)])
            p = [c.rng.choice(["e", "p0"]) for _ in range(4)]
            if kind in ("hash", "mac"):
                if kind == "mac":
                    s.key(1, (m, 0, 32))
                s.upd(1, (m, 0, f, p[0])).upd(1, (m, f, n, p[1]))
                if kind == "hash":
                    s.dig(1, 64, p[2])
            else:
                s.pair("cip" if kind == "cipher" else "aead", 1, k, v[:2] + (16 if kind == "cipher" else 12,))
                s.crypt("enc", 1, (m, 0, f, p[0]), p[1]).crypt("dec", 1, (m, f, n, p[2]), p[3])
            ss.append(s)
    conform(c, exe, w, ss, "bulk")
