"""C17: constant evaluation computes the same as execution."""
from mv.core import *
from mv.plans import *
from mv.constant import constant
from mv import types
from checks.c15 import ALL, alphabet, alg_of


def sizes(c, tys):
    """One object each, sizes around the borders."""
    w = World()
    m = w.stream(c.rng.randbytes(700))
    ss = []
    r = c.rng
    for kind, name, cpp in tys:
        alg = alg_of(kind, name)
        b, D = BLOCK.get(alg, 64), DIGEST[alg]
        s = Session(group=name)
        f = (kind, name, alg)
        for n in r.sample([0, 1, 3, b - 17, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, 2 * b, 3 * b - 1], 5 if c.quick else 12):
            n = max(n, 0)
            x = (m, r.randrange(40), n)
            k, v = (m, r.randrange(200), r.choice([0, 1, 15, 16, 17, 31, 32, 33, b, b + 1])), (m, r.randrange(200), r.choice([0, 1, 11, 12, 13, 15, 16, 17]))
            s = Session(group=name)
            s.cost = 30
            s.new(1, *f)
            if kind in ("hash", "mac"):
                if kind == "mac":
                    s.key(1, k)
                p = r.randrange(n + 1)
                s.upd(1, (m, x[1], p)).upd(1, (m, x[1] + p, n - p)).dig(1, r.choice([D, D, D + 1, D - 1])).dig(1, D)
            elif kind == "hkdf":
                s.hkdf(1, k, v, (m, 3, r.randrange(70))).der(1, r.choice([1, D - 1, D, D + 1])).der(1, r.randrange(2 * D))
            elif kind == "pbkdf":
                s.pbk(1, k, v, r.choice([1, 2, 3])).der(1, r.choice([1, D - 1, D, D + 1])).der(1, r.randrange(D))
            elif kind == "cipher":
                s.pair("cip", 1, k, v).crypt("enc", 1, x).crypt("dec", 1, (m, 5, r.randrange(70)))
            else:
                s.pair("aead", 1, k, v).aad(1, (m, 7, r.randrange(40))).crypt("enc", 1, x).dig(1, 16).ver(1, (m, 1, r.choice([0, 15, 16, 17])))
                s.seal(name, k, v, (m, 7, r.randrange(40)), x)
            ss.append(s)
    return w, ss


def opened(c):
    """Texts sealed by the model's own results are not at hand: these were sealed at run time."""
    w = World()
    r = c.rng
    m = w.stream(r.randbytes(300))
    tys = types.aead_types()
    exe = build_interp(c, "interp", tys)
    sealed = []
    for i in range(10 if c.quick else 60):
        kind, name, cpp = tys[i % len(tys)]
        a = (m, r.randrange(50), 32), (m, r.randrange(50), 12), (m, r.randrange(50), r.randrange(40)), (m, r.randrange(50), r.choice([0, 1, 16, 63, 64, 65, 130]))
        sealed.append((name, a, Session(group="open").seal(name, *a)))
    rec = drive(c, exe, w, [s for _, _, s in sealed], "sealed")
    ss = []
    for (name, a, s), (_, evs) in zip(sealed, rec):
        if not plain(evs[0]):
            continue
        x, t = bytes(evs[0]["out"]), bytes(evs[0]["tag"])
        mx, mt = w.stream(x), w.stream(t)
        s = Session(group="open")
        s.cost = 40
        s.open(name, a[0], a[1], a[2], (mx, 0, len(x)), (mt, 0, 16))
        ss.append(s)
        y = bytearray(t)
        y[r.randrange(16)] ^= 1 << r.randrange(8)
        my = w.stream(y)
        s = Session(group="open")
        s.cost = 40
        s.open(name, a[0], a[1], a[2], (mx, 0, len(x)), (my, 0, 16))
        s.open(name, a[0], a[1], a[2], (mx, 0, len(x)), (mt, 0, r.randrange(16)))
        ss.append(s)
    return w, ss, tys


def codecs(c):
    w = World()
    r = c.rng
    ss = []
    h, b = b"0123456789abcdefABCDEF", b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    every = w.stream(bytes(range(256)))
    ss.append(Session(group="codec").cenc("base_16", (every, 0, 256)).cenc("base_64", (every, 0, 256)).cenc("base_64", (every, 1, 255)).cenc("base_64", (every, 2, 254)))
    for k in ("base_16", "base_64"):
        for i in range(16 if c.quick else 100):
            s = Session(group="codec")
            s.cost = 5
            for j in range(8):
                n = r.randrange(14)
                if k == "base_16":
                    t = bytearray(r.choice(h) for _ in range(n if r.random() < 0.2 else 2 * n))
                else:
                    t = bytearray(r.choice(b) for _ in range(n if r.random() < 0.2 else 4 * n))
                    e = r.choice([0, 0, 1, 2, 3])
                    if t:
                        t[-e or len(t):] = b"=" * min(e, len(t))
                if t and r.random() < 0.3:
                    t[r.randrange(len(t))] = r.choice([r.randrange(256), ord("="), ord("-"), ord("g"), 0, 0x80])
                m = w.stream(t)
                s.cdec(k, (m, 0, len(t)), 0).cdsz(k, (m, 0, len(t))).cesz(k, (m, 0, len(t))).cenc(k, (m, 0, len(t)))
            ss.append(s)
        # Every byte value in every place of a group.
        for p in range(2 if k == "base_16" else 4):
            s = Session(group=("codec", k, p))
            s.cost = 3
            for x in range(256):
                t = bytearray(b"a5a5"[:2] if k == "base_16" else b"QUJD")
                t[p] = x
                m = w.stream(t)
                s.cdec(k, (m, 0, len(t)), 0)
            ss.append(s)
    return w, ss


def check(c):
    tys = ALL()
    n = 0
    # Histories of two objects.
    for what, split in (("histories", False), ("continued", True)):
        w = World()
        use = [t for t in tys if not (split and t[0] in ("hkdf", "pbkdf"))]
        plans = [alphabet(c, w, kind, name, alg_of(kind, name), wide=True) for kind, name, cpp in use]
        # (Few results each: tables of all prefixes would cost more than they save.)
        w.hash, w.mac, w.okm = {}, {}, {}
        ss = sessions_of(c, w, plans, what, 9, 4 if c.quick else 60)
        n += constant(c, w, use, ss, what, split)
    w, ss = sizes(c, tys)
    n += constant(c, w, tys, ss, "sizes")
    cont = [t for t in tys if t[0] not in ("hkdf", "pbkdf")]
    w, ss = sizes(c, cont)
    n += constant(c, w, cont, ss, "sizes_continued", True)
    w, ss, ae = opened(c)
    n += constant(c, w, ae, ss, "opened")
    w, ss = codecs(c)
    n += constant(c, w, [], ss, "codecs")
    c.note(constant_sessions=n)
    c.assumptions += ["The compiler is the one installed (gcc); it rejects undefined behaviour in constant expressions."]
