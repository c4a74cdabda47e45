"""C03: Poly1305 tags for any key, message and slicing."""
from mv.core import *
from mv.plans import *
from mv import types

P = 2 ** 130 - 5
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def check(c):
    design(c, "HashDesign")
    exe = build_interp(c, "interp", types.poly_types())
    operands(c, exe)
    keys(c, exe)
    slicing(c, exe)
    histories(c, exe)
    long(c, exe)
    c.assumptions += ["The values of accumulator, r and s are sampled at the borders of limbs and of the modulus, "
                      "not enumerated (2^384 of them)."]


def le(x, n=16):
    return x.to_bytes(n, "little")


def targets(rng):
    """Values of the accumulator worth reaching before the final reduction."""
    t = set(range(8)) | {P - i for i in range(1, 9)}
    for k in (26, 32, 44, 52, 64, 78, 88, 96, 104, 128, 129):
        t |= {2 ** k - 1, 2 ** k, 2 ** k + 1, P - 2 ** k, 2 ** 130 - 2 ** k}
    t |= {2 ** 128 + x for x in (-6, -5, -4, 5)} | {2 ** 129 + 2 ** 128 + x for x in (-1, 0, 1)}
    t |= {x % P for x in t}
    t |= {int.from_bytes(pattern(rng, 17), "little") % P for _ in range(20)}
    return sorted(t)


def reach(rng, r, t, n):
    """A message of n blocks after which the accumulator is t modulo P, if one is found."""
    if r == 0:
        return None
    inv = pow(r, P - 2, P)
    for _ in range(12):
        h = 0
        m = b""
        for _ in range(n - 1):
            x = int.from_bytes(pattern(rng, 16), "little")
            m += le(x)
            h = (h + x + 2 ** 128) * r % P
        x = (t * inv - h - 2 ** 128) % P
        if x < 2 ** 128:
            return m + le(x)
        # A short last block has its end mark elsewhere.
        for k in range(15, 0, -1):
            x = (t * inv - h - 2 ** (8 * k)) % P
            if x < 2 ** (8 * k):
                return m + le(x, k)
    return None


def operands(c, exe):
    """Accumulators at the borders of limbs and modulus, r of long runs, s that carries."""
    w = World()
    ss = []
    rs = [1, 2, 3, 4, 2 ** 26, 2 ** 32, 2 ** 34, 2 ** 64, 2 ** 66, 2 ** 100, 2 ** 123, CLAMP, CLAMP - 3, 0, 5 << 96]
    ts = targets(c.rng)
    tries = 3600 if c.quick else 20000
    j = 0
    for i in range(tries):
        r = c.rng.choice(rs) & CLAMP if c.rng.random() < 0.6 else int.from_bytes(pattern(c.rng, 16), "little") & CLAMP
        s = c.rng.choice([0, 2 ** 128 - 1, 1, 2 ** 127, 2 ** 128 - 2 ** 32, int.from_bytes(pattern(c.rng, 16), "little")])
        if i % 3 == 0:
            m = pattern(c.rng, c.rng.randrange(200))        # anything
        elif i % 3 == 1:
            m = reach(c.rng, r, ts[j % len(ts)], c.rng.randrange(1, 6))
            j += 1
        else:                                               # sums without reduction: r is 1
            r = 1
            n = c.rng.choice([4, 4, 8, 12, 3, 5])
            v = (c.rng.choice(ts) - n * 2 ** 128) % P
            b = []
            for q in range(n - 1):
                x = min(v, 2 ** 128 - 1) if c.rng.random() < 0.7 else c.rng.randrange(min(v, 2 ** 128 - 1) + 1)
                b.append(x)
                v -= x
            b.append(min(v, 2 ** 128 - 1))
            m = b"".join(map(le, b))
        if m is None:
            continue
        k = le(r | (c.rng.getrandbits(128) & ~CLAMP if c.rng.random() < 0.5 else 0)) + le(s)
        ks, ms = w.stream(k), w.stream(m)
        se = Session(group=i % 8)
        kind, name, _ = types.poly_types()[i % 2]
        se.new(1, kind, name, "poly_1305").key(1, (ks, 0, 32, place(c.rng)))
        a = 0
        for n in cut(c.rng, len(m), 3):
            se.upd(1, (ms, a, n, place(c.rng)))
            a += n
        se.dig(1, 16, place(c.rng))
        ss.append(se)
    c.note(crafted_operands=len(ss), accumulator_targets=len(ts))
    conform(c, exe, w, ss, "operands")


def keys(c, exe):
    """Keys of any length count as truncated or zero padded."""
    w = World()
    m = w.stream(c.rng.randbytes(80))
    ss = []
    for n in range(0, 66):
        k = w.stream(pattern(c.rng, n))
        s = Session(group=n % 4)
        kind, name, _ = types.poly_types()[n % 2]
        s.new(1, kind, name, "poly_1305").key(1, (k, 0, n, place(c.rng))).upd(1, (m, 0, 43)).dig(1, 16)
        s.key(1, (k, n // 2, n - n // 2, place(c.rng))).dig(1, 20).dig(1, 3)
        ss.append(s)
    conform(c, exe, w, ss, "keys")


def slicing(c, exe):
    w = World()
    ss = []
    top = 200
    for i in range(2 if c.quick else 6):
        m = w.stream(pattern(c.rng, top) if i else c.rng.randbytes(top))
        k = (w.stream(c.rng.randbytes(32)), 0, 32)
        w.use_mac("poly_1305", 16, k, m, top)
        for kind, name, _ in types.poly_types():
            sweep(c, ss, i, lambda s: s.new(1, kind, name, "poly_1305").key(1, k), 16, m, 16,
                  lambda f: edges(c.rng, f, 16) | set(range(0, 180 - f, 7)) if c.quick else range(top - f))
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing")


def histories(c, exe):
    w = World()
    plans = []
    m = w.stream(pattern(c.rng, 300))
    for kind, name, _ in types.poly_types():
        pro = Session().new(1, kind, name, "poly_1305")
        al = Session()
        for n in [0, 16, 31, 32, 33]:
            al.key(1, (m, c.rng.randrange(260), n, place(c.rng)))
        for n in [0, 1, 7, 15, 16, 17, 32, 33, 100]:
            al.upd(1, (m, c.rng.randrange(200), n, place(c.rng)))
        for n in (0, 1, 15, 16, 30):
            al.dig(1, n, place(c.rng))
        plans.append((name, pro, al))
    behaviours(c, exe, w, plans, "histories", 9, 150 if c.quick else 2000, cost=4)


def long(c, exe):
    """Messages of more than 2^32 bytes."""
    w = World()
    m = w.stream(pattern(c.rng, 100))
    k = w.stream(c.rng.randbytes(32))
    ss = []
    for kind, name, _ in types.poly_types():
        for u in (1, 16):
            s = Session(group=0)
            s.new(1, kind, name, "poly_1305").key(1, (k, 0, 32)).upd(1, (-1, u, c.rng.randrange(200)))
            s.upd(1, (m, 0, c.rng.randrange(100))).dig(1, 16)
            ss.append(s)
    conform(c, exe, w, ss, "long", parts=4, shards=2)
