"""C08: opening accepts exactly the authentic message."""
from mv.core import *
from mv.plans import *
from mv import types

FORMS = 7           # of the one-call functions: with or without error argument, pointers or containers
NAME = "chacha_20_poly_1305"


def check(c):
    design(c, "AeadDesign")
    tys = types.aead_types()
    exe = build_interp(c, "interp", tys)
    tags(c, exe, tys)
    parts(c, exe, tys)
    streaming(c, exe, tys)
    long(c, exe, tys)
    c.assumptions += ["A forged tag that happens to be right cannot be told from a bug that accepts one: probability 2^-128 per case."]


def tags(c, exe, tys):
    """Every single-bit change of the tag, every length of it, extensions, in every form of the call."""
    w = World()
    a = w.stream(c.rng.randbytes(120))
    ss = []
    for t, (kind, name, _) in enumerate(tys):
        for j in range(1 if c.quick else 12):
            k, v = (a, 8 * t, 32), (a, 50 + j, 12)
            w.use_ks("aead", k, v, 300)
            msg = ((a, 3, c.rng.randrange(40)), (a, 5, c.rng.randrange(100)))

            def start():
                s = Session(group=(t, j))
                s.seal(name, k, v, *msg, form=c.rng.randrange(3), st=100, su=101)
                ss.append(s)
                return s

            def opens(s, tag, forms=range(FORMS)):
                for f in forms:
                    s.open(name, k, v, msg[0], (100, 0, msg[1][2], c.rng.choice(["i", place(c.rng)])), tag + (place(c.rng),), f)

            s = start()
            opens(s, (101, 0, 16))
            s = start()
            for i in range(128):
                s.mflip(101, i // 8 + 1, 1 << (i % 8))
                opens(s, (101, 0, 16), [i % FORMS, (i + 3) % FORMS])
                s.mflip(101, i // 8 + 1, 1 << (i % 8))
            opens(s, (101, 0, 16))
            # Several bytes at once, that cancel in a sum or an exclusive or of all, or in a word.
            s = start()
            for _ in range(40):
                x = c.rng.randrange(1, 256)
                p = c.rng.sample(range(1, 17), 2)
                for i in p:
                    s.mflip(101, i, x)
                opens(s, (101, 0, 16), [c.rng.randrange(FORMS)])
                for i in p:
                    s.mflip(101, i, x)
            s = start()
            for n in range(0, 16):
                opens(s, (101, 0, n), range(FORMS) if n in (0, 1, 15) else [n % FORMS])
                opens(s, (101, 16 - n, n), [(n + 3) % FORMS])
            s = start()
            for n in range(1, 20):
                s.madd(101, [c.rng.choice([0, c.rng.randrange(256)])])
                opens(s, (101, 0, 16 + n), range(FORMS) if n in (1, 16) else [n % FORMS])
                opens(s, (101, 0, 16), [n % FORMS])
            # Twice the tag, and much longer ones whose length has a low part of 16.
            s = start()
            s.madd(101, [c.rng.randrange(256) for _ in range(240)])
            opens(s, (101, 0, 256))
            s.madd(101, [0] * 16)
            opens(s, (101, 0, 272))
            s.madd(101, [0] * (65552 - 272))
            opens(s, (101, 0, 65552), [0, 2, 4])
    conform(c, exe, w, ss, "tags")


def parts(c, exe, tys):
    """Changes of key, nonce, additional data and ciphertext: every byte, and every way to
    lengthen, shorten, or move bytes between data and ciphertext."""
    w = World()
    ss = []
    for t, (kind, name, _) in enumerate(tys):
        for j, (na, np) in enumerate([(0, 0), (5, 0), (0, 17), (16, 64), (21, 30), (32, 70)]):
            x = c.rng.randbytes(44 + na + np)
            a = w.stream(x)
            K, V, A, T = (0, 32), (32, 12), (44, na), (44 + na, np)

            def refs(st):
                return [(st, o, n) for o, n in (K, V, A)]

            def start():
                s = Session(group=(t, j))
                s.mset(100, x).seal(name, *refs(100), (a, *T, "ie"[(t + j) % 2]), form=c.rng.randrange(3), st=101, su=102)
                ss.append(s)
                return s
            tag = (102, 0, 16)
            s = start()
            for f in range(FORMS):
                s.open(name, *refs(100), (101, 0, np, c.rng.choice("ei")), tag, f)
            s = start()
            for i in range(1, 45 + na if na else 45):
                if i > 44 + na:
                    break
                if c.quick and i < 44 and i % 3 != t:
                    continue
                b = 1 << c.rng.randrange(8)
                s.mflip(100, i, b).open(name, *refs(100), (101, 0, np, "ie"[i // FORMS % 2]), tag, i % FORMS).mflip(100, i, b)
            s.open(name, *refs(100), (101, 0, np), tag, 0)
            s = start()
            for i in range(1, np + 1):
                b = 1 << c.rng.randrange(8)
                s.mflip(101, i, b).open(name, *refs(100), (101, 0, np, "ie"[i // FORMS % 2]), tag, i % FORMS).mflip(101, i, b)
            for n in range(np):
                if np - n < 18 or n < 3:
                    s.open(name, *refs(100), (101, 0, n), tag, n % FORMS)
            for n in range(17):
                s.madd(101, [0]).open(name, *refs(100), (101, 0, np + n + 1), tag, n % FORMS)
            s = start()
            # Additional data shorter, and longer by zeros.
            for n in range(na):
                if na - n < 18:
                    s.open(name, *refs(100)[:2], (100, 44, n), (101, 0, np), tag, n % FORMS)
            s.mset(103, x[44:44 + na])
            for n in range(17):
                s.madd(103, [0]).open(name, *refs(100)[:2], (103, 0, na + n + 1), (101, 0, np), tag, n % FORMS)
            # Bytes that change sides.
            s.mset(104, x[44:44 + na])
            if na:
                s.open(name, *refs(100)[:2], (100, 44, 0), (104, 0, na), tag, 1)
    c.note(alterations=sum(1 for s in ss for e in s.events if e and e["op"] == "open"))
    conform(c, exe, w, ss, "parts")


def streaming(c, exe, tys):
    """Objects: verification after any history, repeated, in both forms, right and wrong."""
    w = World()
    a = w.stream(c.rng.randbytes(300))
    ss = []
    for i in range(120 if c.quick else 2500):
        kind, name, _ = tys[i % len(tys)]
        k, v = (a, 0, 32), (a, 40, 12)
        w.use_ks("aead", k, v, 400)
        s = Session(group=i % 8)
        s.new(1, kind, name, NAME).pair("aead", 1, k, v)
        for n in cut(c.rng, c.rng.randrange(40), 3):
            s.aad(1, (a, c.rng.randrange(200), n, place(c.rng)))
        for n in cut(c.rng, c.rng.randrange(150), 4):
            s.crypt(c.rng.choice(["enc", "dec"]), 1, (a, c.rng.randrange(100), n, place(c.rng)), c.rng.choice(["i", place(c.rng)]))
        if i % 3 == 0:
            # Verify before the digest was ever read: with a tag of a twin.
            s.cpy(2, 1).dig(2, 16, "e", 100)
        else:
            s.dig(1, 16, "e", 100)
        s.mset(101, c.rng.randbytes(16))
        for _ in range(6):
            q = c.rng.randrange(5)
            f = c.rng.randrange(9)
            if q == 0:
                s.ver(1, (101, 0, 16, place(c.rng)), f)
            elif q == 1:
                s.ver(1, (100, 0, c.rng.randrange(17), place(c.rng)), f)
            elif q == 2:
                b = c.rng.randrange(128)
                s.mflip(100, b // 8 + 1, 1 << b % 8).ver(1, (100, 0, 16, place(c.rng)), f).mflip(100, b // 8 + 1, 1 << b % 8)
            elif q == 3:
                s.dig(1, c.rng.randrange(17))
            else:
                s.ver(1, (100, 0, 16, place(c.rng)), f)
        s.ver(1, (100, 0, 16, place(c.rng)), c.rng.randrange(9))
        ss.append(s)
    conform(c, exe, w, ss, "streaming")


def long(c, exe, tys):
    """Tags of lengths that equal 16 in their low 8, 16 and 32 bits."""
    w = World()
    a = w.stream(c.rng.randbytes(100))
    ss = []
    for kind, name, _ in tys:
        s = Session(group=name)
        s.new(1, kind, name, NAME).pair("aead", 1, (a, 0, 32), (a, 32, 12)).aad(1, (a, 0, 9)).crypt("enc", 1, (a, 9, 50))
        for f in (0, 1, 2, 6, 7, 8):
            s.ver(1, (-1, 16, 16), f).ver(1, (-1, 1, 0), f)
        ss.append(s)
    conform(c, exe, w, ss, "huge_tags", shards=1)
