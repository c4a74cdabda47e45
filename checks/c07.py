"""C07: sealing yields the ciphertext and tag of RFC 8439."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "AeadDesign")
    tys = types.aead_types()
    exe = build_interp(c, "interp", tys)
    sizes(c, exe, tys)
    slices(c, exe, tys)
    pairs(c, exe, tys)
    histories(c, exe, tys)
    long(c, exe, tys)
    c.assumptions += ["Keys, nonces and contents are sampled; sizes at the borders of blocks are enumerated.",
                      "Lengths past 2^32 bytes are explored with zeros: plaintexts for one key (tag of spec/lib/Long.tla), "
                      "additional data and ciphertexts for any."]


def where(rng):
    return "i" if rng.random() < 0.3 else place(rng)


def material(c, w, n):
    r = []
    for _ in range(n):
        k, v = (w.stream(c.rng.randbytes(32)), 0, 32), (w.stream(c.rng.randbytes(12)), 0, 12)
        w.use_ks("aead", k, v, 2600)
        r.append((k, v))
    return r


def sizes(c, exe, tys):
    """Sizes of additional data and plaintext, present, empty or absent; all forms of sealing."""
    w = World()
    kv = material(c, w, 4)
    m = w.stream(pattern(c.rng, 2000))
    ss = []
    edges_ = sorted(set(range(0, 35)) | set(around(48, 64, 128, 256, 512)))
    grid = [(a, p) for a in (edges_ if not c.quick else sorted(set(c.rng.sample(edges_, 14)) | {0, 1, 15, 16, 17, 32}))
            for p in (edges_ if not c.quick else sorted(set(c.rng.sample(edges_, 14)) | {0, 1, 15, 16, 17, 64}))]
    for i, (a, p) in enumerate(grid):
        j = c.rng.randrange(4)
        k, v = kv[j]
        kind, name, _ = tys[i % len(tys)]
        s = Session(group=(j, i % 2))
        A, T = (m, c.rng.randrange(1000), a, place(c.rng)), (m, c.rng.randrange(1000), p, place(c.rng))
        s.seal(name, k, v, A, T[:3] + (where(c.rng),), i % 3)
        s.new(1, kind, name, "chacha_20_poly_1305").pair("aead", 1, k, v)
        if a or i % 2:
            s.aad(1, A)
        if p or i % 3:
            s.crypt("enc", 1, T, where(c.rng))
        s.dig(1, 16, place(c.rng)).dig(1, c.rng.randrange(20), place(c.rng))
        ss.append(s)
    c.note(size_pairs=len(grid))
    conform(c, exe, w, ss, "sizes")


def slices(c, exe, tys):
    """Random slicings of additional data, then of the text, encrypting and decrypting."""
    w = World()
    kv = material(c, w, 4)
    m = w.stream(pattern(c.rng, 2500))
    ss = []
    for i in range(320 if c.quick else 6000):
        j = i % 4
        k, v = kv[j]
        kind, name, _ = tys[i // 4 % len(tys)]
        s = Session(group=(j, i % 2))
        s.new(1, kind, name, "chacha_20_poly_1305").pair("aead", 1, k, v)
        a, p = c.rng.choice([c.rng.randrange(80), c.rng.randrange(400)]), c.rng.choice([c.rng.randrange(150), c.rng.randrange(1500)])
        q = c.rng.randrange(900)
        for n in cut(c.rng, a, 6):
            s.aad(1, (m, q, n, place(c.rng)))
            q += n
        q = c.rng.randrange(900)
        for n in cut(c.rng, p, 7):
            s.crypt("dec" if i % 3 == 0 else "enc", 1, (m, q, n, place(c.rng)), where(c.rng))
            q += n
        s.dig(1, 16, place(c.rng))
        ss.append(s)
    conform(c, exe, w, ss, "slices")


def pairs(c, exe, tys):
    """Keys and nonces of any length count as truncated or zero padded."""
    w = World()
    a = w.stream(c.rng.randbytes(80))
    ss = []
    for n in range(0, 42):
        kind, name, _ = tys[n % len(tys)]
        s = Session(group=n % 4)
        s.new(1, kind, name, "chacha_20_poly_1305")
        for k, v in (((a, c.rng.randrange(80 - n), n, place(c.rng)), (a, 3, 12, place(c.rng))),
                     ((a, 5, 32, place(c.rng)), (a, c.rng.randrange(80 - n), n, place(c.rng)))):
            s.pair("aead", 1, k, v).aad(1, (a, 0, 5)).crypt("enc", 1, (a, 0, 70, place(c.rng)), where(c.rng)).dig(1, 16)
        s.seal(name, (a, 1, n, place(c.rng)), (a, 2, n // 2, place(c.rng)), (a, 0, 20), (a, 0, 33), n % 3)
        ss.append(s)
    conform(c, exe, w, ss, "pairs")


def histories(c, exe, tys):
    w = World()
    kv = material(c, w, 2)
    m = w.stream(pattern(c.rng, 1500))
    plans = []
    for kind, name, _ in tys:
        pro = Session().new(1, kind, name, "chacha_20_poly_1305")
        al = Session()
        for k, v in kv:
            al.pair("aead", 1, k, v)
        for n in [0, 1, 15, 16, 33]:
            al.aad(1, (m, c.rng.randrange(900), n, place(c.rng)))
        for n, d in [(0, "enc"), (1, "enc"), (15, "dec"), (16, "enc"), (64, "enc"), (65, "dec"), (200, "enc")]:
            al.crypt(d, 1, (m, c.rng.randrange(900), n, place(c.rng)), where(c.rng))
        for n in (0, 15, 16, 30):
            al.dig(1, n, place(c.rng))
        plans.append(("x", pro, al))
    behaviours(c, exe, w, plans, "histories", 8, 200 if c.quick else 3000, cost=10)


def long(c, exe, tys):
    """More than 2^32 bytes of additional data, of plaintext and of ciphertext."""
    w = World()
    k = w.stream(bytes(range(32)))
    k2 = w.stream(c.rng.randbytes(44))
    m = w.stream(c.rng.randbytes(100))
    ss = []
    for kind, name, _ in tys:
        def start(*kv):
            s = Session(group=name)
            s.new(1, kind, name, "chacha_20_poly_1305").pair("aead", 1, *kv)
            ss.append(s)
            return s
        std = ((k, 0, 32), (k, 0, 12))
        rnd = ((k2, 0, 32), (k2, 32, 12))
        start(*std).cryptz("encz", 1, 16, 3, mode=1 if name == "aead" else 2).dig(1, 16)
        start(*rnd).aad(1, (-1, 16, c.rng.randrange(100))).crypt("enc", 1, (m, 0, 50)).dig(1, 16)
        start(*rnd).aad(1, (m, 0, 21)).cryptz("decz", 1, 16, c.rng.randrange(100)).crypt("dec", 1, (m, 0, 33)).dig(1, 16)
        start(*std).cryptz("encz", 1, 2, 3, mode=2 if name == "aead" else 1).dig(1, 16)
    conform(c, exe, w, ss, "long", parts=8, shards=4)
