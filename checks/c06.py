"""C06: ChaCha20 for any key, counter, stream and slicing."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "CipherDesign")
    tys = types.cipher_types()
    exe = build_interp(c, "interp", tys)
    slicing(c, exe, tys)
    counters(c, exe, tys)
    pairs(c, exe, tys)
    histories(c, exe, tys)
    long(c, exe, tys)
    c.note(backends=[t[1] for t in tys])
    c.assumptions += ["Keys and contents are sampled; fills of the buffer, sizes and counters at their borders are enumerated."]


def where(rng):
    return "i" if rng.random() < 0.3 else place(rng)


def crypt(c, s, o, m, a, n):
    return s.crypt(c.rng.choice(["enc", "dec"]), o, (m, a, n, place(c.rng)), where(c.rng))


def slicing(c, exe, tys):
    """Every fill of the buffer and sizes around all multiples of a block up to more than two
    strides of the widest backend."""
    w = World()
    ss = []
    top = 1600
    m = w.stream(pattern(c.rng, top))
    for t, (kind, name, _) in enumerate(tys):
        k = (w.stream(c.rng.randbytes(32)), 0, 32)
        v = (w.stream(pattern(c.rng, 16)), 0, 16)
        w.use_ks("cipher", k, v, 4 * top)
        for f in range(64):
            s = Session(group=t)
            s.new(1, kind, name, "chacha_20").pair("cip", 1, k, v)
            if c.rng.random() < 0.5:
                crypt(c, s, 1, m, 0, 64 * c.rng.randrange(0, 20))
            crypt(c, s, 1, m, 0, f)
            if c.quick:
                ns = {64 * i - f + d for i in c.rng.sample(range(0, 20), 6) for d in (-1, 0, 1)} | {0, 1} | \
                    {c.rng.randrange(1400) for _ in range(4)}
            else:
                ns = range(0, 1300)
            for n in sorted(x for x in ns if x >= 0):
                s.cpy(2, 1)
                crypt(c, s, 2, m, c.rng.randrange(top - n), n)
                crypt(c, s, 2, m, 0, c.rng.choice([1, 63, 64, 65]))
                s.drop(2)
            ss.append(s)
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing")


def counters(c, exe, tys):
    """The block counter wraps in every lane of every backend; the nonce stays."""
    w = World()
    m = w.stream(c.rng.randbytes(1500))
    ss = []
    for t, (kind, name, _) in enumerate(tys):
        k = (w.stream(c.rng.randbytes(32)), 0, 32)
        for x in [2 ** 32 - d for d in range(1, 20)] + [2 ** 31 - d for d in (0, 1, 3, 6)] + \
                [2 ** 16 - d for d in (1, 5)] + [2 ** 8 - d for d in (1, 7)] + [2 ** 24 - 3]:
            nonce = c.rng.choice([b"\xff" * 12, c.rng.randbytes(12)])
            v = (w.stream((x % 2 ** 32).to_bytes(4, "little") + nonce), 0, 16)
            for sizes in ([1400], [c.rng.randrange(1, 130) for _ in range(9)], [64 * c.rng.randrange(1, 9), 500, 600]):
                s = Session(group=(t, x % 2))
                s.new(1, kind, name, "chacha_20").pair("cip", 1, k, v)
                for n in sizes:
                    crypt(c, s, 1, m, c.rng.randrange(1500 - n), n)
                ss.append(s)
    conform(c, exe, w, ss, "counters")


def pairs(c, exe, tys):
    """Keys and blocks of any length."""
    w = World()
    a = w.stream(c.rng.randbytes(60))
    ss = []
    for n in list(range(0, 50)):
        kind, name, _ = tys[n % len(tys)]
        s = Session(group=n % 4)
        s.new(1, kind, name, "chacha_20")
        s.pair("cip", 1, (a, c.rng.randrange(60 - n), n, place(c.rng)), (a, 3, 16, place(c.rng)))
        crypt(c, s, 1, a, 0, 60)
        s.pair("cip", 1, (a, 5, 32, place(c.rng)), (a, c.rng.randrange(60 - n), n, place(c.rng)))
        crypt(c, s, 1, a, 0, 60)
        s.pair("cip", 1, (a, 5, n, place(c.rng)), (a, 0, n // 2, place(c.rng)))
        crypt(c, s, 1, a, 0, 60)
        ss.append(s)
    conform(c, exe, w, ss, "pairs")


def histories(c, exe, tys):
    w = World()
    plans = []
    m = w.stream(pattern(c.rng, 2000))
    keys = [w.stream(c.rng.randbytes(32)) for _ in range(3)]
    ivs = [w.stream(pattern(c.rng, 16)) for _ in range(3)]
    for k, v in zip(keys, ivs):
        w.use_ks("cipher", (k, 0, 32), (v, 0, 16), 9000)
    for kind, name, _ in tys:
        pro = Session().new(1, kind, name, "chacha_20")
        al = Session()
        for k, v in zip(keys, ivs):
            al.pair("cip", 1, (k, 0, 32, place(c.rng)), (v, 0, 16, place(c.rng)))
        for n in [0, 1, 31, 63, 64, 65, 128, 255, 256, 511, 512, 513, 700, c.rng.randrange(1100)]:
            crypt(c, al, 1, m, c.rng.randrange(900), n)
        plans.append((name, pro, al))
    behaviours(c, exe, w, plans, "histories", 9, 60 if c.quick else 1500, cost=10)


def long(c, exe, tys):
    """More than 2^32 bytes in one call and in several."""
    w = World()
    ss = []
    m = w.stream(c.rng.randbytes(200))
    for kind, name, _ in tys:
        for v in (b"\x00" * 4, (2 ** 32 - 2 ** 25).to_bytes(4, "little")):
            iv = w.stream(v + c.rng.randbytes(12))
            s = Session(group=name)
            s.new(1, kind, name, "chacha_20").pair("cip", 1, (m, 0, 32), (iv, 0, 16))
            crypt(c, s, 1, m, 0, c.rng.randrange(130))
            if v[3] == 0:
                s.cryptz("enc" + "z", 1, 16, c.rng.randrange(2000))
            else:
                s.cryptz("dec" + "z", 1, 7, c.rng.randrange(2000)).cryptz("encz", 1, 2, c.rng.randrange(200))
            crypt(c, s, 1, m, 0, c.rng.randrange(130))
            ss.append(s)
    conform(c, exe, w, ss, "long", parts=8, shards=4)
