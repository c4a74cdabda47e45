"""C02: HMAC tags for any key length, message and slicing."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "HashDesign")
    exe = build_interp(c, "interp", [t for a in HASHES for t in types.hmac_types(a)])
    keys(c, exe)
    wide_keys(c, exe)
    slicing(c, exe)
    histories(c, exe)
    long(c, exe)
    c.assumptions += ["Keys and messages of more than 2^32 bytes are explored with zeros."]


def keys(c, exe):
    """Every key length up to more than two blocks."""
    w = World()
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        top = 2 * b + 20
        m = w.stream(c.rng.randbytes(top))
        p = w.stream(pattern(c.rng, top))
        for t, (kind, name, _) in enumerate(types.hmac_types(alg)):
            for n in range(top):
                if t and c.quick and n % 3 != t % 3 and not n % b in (0, 1, b - 1):
                    continue
                s = Session(group=(alg, n % 4))
                s.new(1, kind, name, alg)
                for r in range(1 if c.quick else 4):
                    s.key(1, (c.rng.choice([m, p]), c.rng.randrange(top - n), n, place(c.rng)))
                    k = c.rng.randrange(40)
                    s.upd(1, (m, c.rng.randrange(top - k), k, place(c.rng))).dig(1, 64, place(c.rng))
                ss.append(s)
    c.note(key_lengths=len(ss))
    conform(c, exe, w, ss, "keys")


def wide_keys(c, exe):
    """Keys whose length takes two and three bytes, near the borders of these."""
    w = World()
    m = w.stream(c.rng.randbytes(2 ** 16 + 300))
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        tys = types.hmac_types(alg)
        for n in (2 ** 8 + c.rng.randrange(b), 2 ** 15 + c.rng.randrange(b), 2 ** 16 + c.rng.randrange(b), 2 ** 16 + b + 1):
            for kind, name, _ in [c.rng.choice(tys)] if c.quick else tys:
                s = Session(group=(alg, n))
                s.cost = n / 64
                s.new(1, kind, name, alg).key(1, (m, 0, n)).upd(1, (m, 5, c.rng.randrange(2 * b))).dig(1, 64)
                ss.append(s)
    conform(c, exe, w, ss, "wide_keys")


def slicing(c, exe):
    """f bytes of message in the buffer, n more, for a short and a long key."""
    w = World()
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        top = 4 * b + 8
        m = w.stream(c.rng.randbytes(top))
        ks = w.stream(c.rng.randbytes(2 * b + 2))
        for t, (kind, name, _) in enumerate(types.hmac_types(alg)):
            for kl in ((b - 7, 2 * b - 1) if not c.quick else (b - 7,) if t else (2 * b - 1,)):
                key = (ks, 1, kl)
                w.use_mac(alg, DIGEST[alg], key, m, top)
                sweep(c, ss, (alg, kl), lambda s: s.new(1, kind, name, alg).key(1, key), b, m, DIGEST[alg],
                      lambda f: edges(c.rng, f, b, wide=t == 0, extra=2) if c.quick else range(3 * b + 3))
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing", timeout=600)


def histories(c, exe):
    """Random histories: keys of many lengths, updates, tags of any length, in any order."""
    plans = []
    w = World()
    for alg in HASHES:
        b = BLOCK[alg]
        m = w.stream(pattern(c.rng, 8 * b))
        for kind, name, _ in types.hmac_types(alg):
            pro = Session().new(1, kind, name, alg)
            al = Session()
            for n in [0, DIGEST[alg], b - 1, b, b + 1, 3 * b]:
                al.key(1, (m, c.rng.randrange(8 * b - n + 1), n, place(c.rng)))
            for n in [0, 1, b - 9, b - 8, b, b + 1, 3 * b] + [c.rng.randrange(6 * b) for _ in range(2)]:
                al.upd(1, (m, c.rng.randrange(8 * b - n + 1), n, place(c.rng)))
            for n in (0, 1, DIGEST[alg] - 1, DIGEST[alg], DIGEST[alg] + 9):
                al.dig(1, n, place(c.rng))
            plans.append((alg, pro, al))
    behaviours(c, exe, w, plans, "histories", 9, 40 if c.quick else 500)


def long(c, exe):
    """Long messages, and long keys."""
    w = World()
    m = w.stream(c.rng.randbytes(300))
    ss = []
    for alg in HASHES:
        tys = types.hmac_types(alg)
        for i, (kind, name, _) in enumerate(tys):
            if c.quick and i != len(tys) - 1:
                continue
            for u in (2, 16):
                if c.quick and u == 16 and alg not in ("sha_1_160", "sha_2_256", "sha_2_512"):
                    continue
                s = Session(group=alg)
                s.new(1, kind, name, alg).key(1, (-1, 0, 0))
                s.upd(1, (-1, u, c.rng.randrange(200))).upd(1, (m, 0, c.rng.randrange(300))).dig(1, 64)
                ss.append((u, s))
                s = Session(group=alg)
                s.new(1, kind, name, alg).key(1, (-1, u, c.rng.randrange(200)))
                s.upd(1, (m, 0, c.rng.randrange(300))).dig(1, 64)
                ss.append((u, s))
    ss.sort(key=lambda x: -x[0])
    conform(c, exe, w, [s for _, s in ss], "long", shards=3, parts=8, timeout=600)
