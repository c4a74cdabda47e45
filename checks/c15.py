"""C15: objects are values: reusable, copyable and independent."""
from mv.core import *
from mv.plans import *
from mv import types

ALL = (lambda: [t for a in HASHES for t in types.hash_types(a) + types.hmac_types(a)[:1]] +
       [t for a in ("sha_1_160", "sha_2_256", "sha_2_384", "sha_2_512_256") for t in types.hkdf_types(a)[:1] + types.pbkdf_types(a)[:1]] +
       types.poly_types() + types.cipher_types() + types.aead_types())


def check(c):
    tys = ALL()
    exe, texe = parallel([lambda: build_interp(c, "interp", tys), lambda: build_interp(c, "threads", tys, flags=["-DTHREADS"])])
    exhaustive(c, exe)
    sampled(c, exe, tys)
    threads(c, texe, tys)
    press(c, texe, tys)
    c.assumptions += ["Histories are complete to the stated depth over the stated calls, and sampled beyond.",
                      "The interleavings of threads are those that the machine produced."]


def alphabet(c, w, kind, name, alg, wide=False):
    """What can be done with objects in slots 1 and 2; prologue: both exist, 1 is in use."""
    f = (kind, name, alg)
    b = BLOCK.get(alg, 64)
    D = DIGEST[alg]
    m = w.stream(c.rng.randbytes(4 * b + 200))
    pro = Session().new(1, *f).new(2, *f)
    al = Session()
    inits = []
    k, v = (m, 1, 32), (m, 40, 12 if kind == "aead" else 16)
    q = (m, 5, 32)
    if kind == "hash":
        inits = [lambda o: al.rst(o)]
        w.use_hash(alg, m, 3 * b)
    elif kind == "mac":
        inits = [lambda o: al.key(o, k), lambda o: al.key(o, (m, 0, b + 1))]
        for x in (k, (m, 0, b + 1)):
            w.use_mac(alg, D, x, m, 3 * b)
    elif kind == "hkdf":
        inits = [lambda o: al.hkdf(o, k, v, (m, 3, 9)), lambda o: al.hkdf(o, v, k, (m, 0, 0))]
        w.use_okm(kind, (alg, D, D), k, v, (m, 3, 9), 12 * D)
        w.use_okm(kind, (alg, D, D), v, k, (m, 0, 0), 12 * D)
    elif kind == "pbkdf":
        inits = [lambda o: al.pbk(o, k, v, 1), lambda o: al.pbk(o, v, k, 2)]
        w.use_okm(kind, (alg, D, D), k, v, 1, 12 * D)
        w.use_okm(kind, (alg, D, D), v, k, 2, 12 * D)
    elif kind == "cipher":
        inits = [lambda o: al.pair("cip", o, k, v), lambda o: al.pair("cip", o, q, v)]
    else:
        inits = [lambda o: al.pair("aead", o, k, v), lambda o: al.pair("aead", o, q, v)]
    if kind in ("cipher", "aead"):
        for x in (k, q):
            w.use_ks(kind, x, v, 3000)
    for o in (1, 2):
        for i in inits if wide or o == 1 else inits[-1:]:
            i(o)
        if kind in ("hash", "mac"):
            for n in [b - 9, b] if wide or o == 1 else [b - 9]:
                al.upd(o, (m, 0, n))
            if wide:
                al.upd(o, (m, b - 9, 9)).upd(o, (m, 0, 0))
            al.dig(o, D)
        elif kind in ("hkdf", "pbkdf"):
            for n in [D - 1, 2 * D] if wide or o == 1 else [D - 1]:
                al.der(o, n)
            if wide:
                al.der(o, 0).der(o, 1)
        elif kind == "cipher":
            al.crypt("enc", o, (m, 0, 63)).crypt("dec", o, (m, 7, 65))
            if wide:
                al.crypt("enc", o, (m, 0, 129), "i").crypt("dec", o, (m, 0, 0))
        else:
            al.aad(o, (m, 0, 15)).crypt("enc", o, (m, 9, 17)).dig(o, D)
            if wide:
                al.crypt("dec", o, (m, 0, 64), "i").aad(o, (m, 4, 17)).ver(o, (m, 0, 16))
    al.cpy(2, 1).asg(2, 1).asg(1, 2).mov(2, 1).drop(2)
    if wide:
        al.asg(1, 1).mov(1, 2).cpy(1, 2).drop(1).new(1, *f).new(2, *f)
    return name, pro, al


def exhaustive(c, exe):
    """All histories of two objects up to a depth."""
    w = World()
    plans = []
    for kind, name, alg in (("hash", "sha_1_160", "sha_1_160"), ("mac", "hmac_sha_1_160", "sha_1_160"), ("mac", "poly_1305", "poly_1305"),
                            ("hkdf", "hkdf_sha_1_160", "sha_1_160"), ("pbkdf", "pbkdf_sha_1_160", "sha_1_160"),
                            ("cipher", "chacha_20", "chacha_20"), ("aead", "aead", "chacha_20_poly_1305")):
        plans.append(alphabet(c, w, kind, name, alg))
    depth = 3 if c.quick else 5
    # Kinds with different alphabets are generated apart; longer prologue: slot 1 is in use already.
    all_behaviours(c, exe, w, plans, "all", depth, cost=30)
    c.note(complete_depth=depth)


def sampled(c, exe, tys):
    w = World()
    plans = []
    for kind, name, cpp in tys:
        plans.append(alphabet(c, w, kind, name, alg_of(kind, name), wide=True))
    behaviours(c, exe, w, plans, "sampled", 10, 20 if c.quick else 400, cost=50)


def alg_of(kind, name):
    if kind == "cipher":
        return "chacha_20"
    if kind == "aead":
        return "chacha_20_poly_1305"
    x = name.replace("hmac_", "").replace("hkdf_", "").replace("pbkdf_", "")
    for s in ("_sw", "_hw_x86_64_ni"):
        x = x[:-len(s)] if x.endswith(s) else x
    return x


def threads(c, exe, tys):
    """Several threads, each with objects of its own: first calls at the same time, then many."""
    w = World()
    m = w.stream(c.rng.randbytes(1200))
    pick = [t for t in tys if not t[1].endswith("_sw")]
    for r in range(6 if c.quick else 40):
        ss = []
        for i in range(64 if r == 0 or not c.quick else 16):
            kind, name, _ = c.rng.choice(pick) if i >= 8 else pick[(r * 5) % len(pick)]
            alg = alg_of(kind, name)
            D = DIGEST[alg]
            s = Session(group=i % 8)
            s.cost = 40
            s.new(1, kind, name, alg)
            for rep in range(3):
                a, n = c.rng.randrange(100), c.rng.randrange(500)
                x = (m, a, n, place(c.rng))
                if kind == "hash":
                    s.rst(1).upd(1, x).cpy(2, 1).upd(2, (m, 0, a)).dig(1, D).dig(2, D).drop(2)
                elif kind == "mac":
                    s.key(1, (m, a, 32)).upd(1, x).cpy(2, 1).upd(2, (m, 0, a)).dig(1, D).dig(2, D).drop(2)
                elif kind == "hkdf":
                    s.hkdf(1, (m, a, 40), (m, 0, 9), (m, 9, 9)).der(1, D - 1).der(1, D + 3)
                elif kind == "pbkdf":
                    s.pbk(1, (m, a, 40), (m, 0, 9), 2).der(1, D - 1).der(1, D + 3)
                elif kind == "cipher":
                    s.pair("cip", 1, (m, a, 32), (m, 0, 16)).crypt("enc", 1, x).crypt("dec", 1, (m, 0, a))
                else:
                    s.pair("aead", 1, (m, a, 32), (m, 0, 12)).aad(1, (m, 0, a)).crypt("enc", 1, x).dig(1, 16)
            ss.append(s)
        conform(c, exe, w, ss, "threads%d" % r, parts=1, threads=8, shards=2)
    c.note(threads=8)


def press(c, exe, tys):
    """Eight threads with objects of one type, keys of their own and the same calls, repeated as
    often as time allows; every distinct result of each has to be that of a thread alone."""
    w = World()
    m = w.stream(c.rng.randbytes(1700))
    ss = []
    for kind, name, _ in tys:
        alg = alg_of(kind, name)
        D = DIGEST[alg]
        n = c.rng.randrange(130, 300)
        for i in range(8):
            s = Session(group=i)
            s.cost = 40
            s.new(1, kind, name, alg)
            a = c.rng.randrange(100)
            if kind == "hash":
                s.upd(1, (m, a, n)).dig(1, D)
            elif kind == "mac":
                s.key(1, (m, a, 32)).upd(1, (m, i, n)).dig(1, D)
            elif kind == "hkdf":
                s.hkdf(1, (m, a, 40), (m, 0, 9), (m, 9, 9)).der(1, D + 3)
            elif kind == "pbkdf":
                s.pbk(1, (m, a, 40), (m, 0, 9), 2).der(1, D + 3)
            elif kind == "cipher":
                s.pair("cip", 1, (m, a, 32), (m, 3 * i, 16)).crypt("enc", 1, (m, a, n)).crypt("dec", 1, (m, 0, n + 1000))
            else:
                s.pair("aead", 1, (m, a, 32), (m, 3 * i, 12)).aad(1, (m, 0, 9)).crypt("enc", 1, (m, a, n + 1000)).dig(1, 16)
            ss.append(s)
    for r in range(1 if c.quick else 4):
        conform(c, exe, w, ss, "press%d" % r, parts=1, threads=8, press=60 if c.quick else 1500, timeout=600)
