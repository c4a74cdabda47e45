"""C23: only resizable outputs allocate, and refused memory is an exception that loses nothing."""
import base64

from mv.core import *

GROUPS = {
    "hash": ['HASH("sha_1_160", mp::hash_sha_1_160)', 'HASH("sha_2_512", mp::hash_sha_2_512)'],
    "mac": ['MAC("hmac_sha_2_256", mp::mac_hmac_sha_2_256)', 'MAC("poly_1305", mp::mac_poly_1305)'],
    "hkdf": ['HKDF("hkdf_sha_2_224", mp::kdf_hkdf_hmac_sha_2_224)'],
    "pbkdf": ['PBKDF("pbkdf_sha_1_160", mp::kdf_pbkdf_2_hmac_sha_1_160)'],
    "cipher": ['CIPHER("chacha_20", mp::cipher_chacha_20)'],
    "aead": ['AEAD("aead", mp::aead_chacha_20_poly_1305)'],
    "codec": [],
}
# Forms of rooms.cpp; + 100: with room enough.
OUTPUTS = [0, 1, 2, 3, 4, 102, 103, 104, 5, 6, 7]


class Turns:
    """Forms and refusals, every pair of them in turn for every call."""

    def __init__(self, c):
        self.c = c
        self.next = {}
        self.used = {}
        self.only = None

    def __call__(self, op, ev):
        if op in ("new", "drop", "mset", "mflip"):
            return 0, 0
        if self.only:
            r, self.only = self.only, None
            return r
        one = op in ("1hash", "1mac", "1hkdf", "1pbk")
        outs = OUTPUTS + [8] if one else OUTPUTS
        if op in ("rst", "key", "hkdf", "pbk", "cip", "aead", "upd", "aad", "ver", "cpy", "asg"):
            outs = range(4)
        pairs = [(f, k) for f in outs for k in (range(4) if op in ("seal", "open") else (0, 1, 2, -1))]
        n = self.next.setdefault(op, self.c.rng.randrange(len(pairs)))
        self.next[op] = n + 5 if len(pairs) % 5 else n + 7
        f, k = pairs[n % len(pairs)]
        self.used.setdefault(op, set()).add((f, k))
        return f, k


def check(c):
    design(c, "RoomDesign")
    r = tlc(c, "RoomDesign", "RoomLate.cfg", cwd=os.path.join(SPEC, "design"))
    if not r.violated:
        raise Broken("RoomLate: %s" % r.out[-500:])
    items = []
    for g, ts in GROUPS.items():
        inc = "rooms_%s.inc" % g
        with open(c.path(inc), "w") as f:
            f.write("\n".join(ts) + "\n")
        items.append((g, "rooms.cpp", ['-DTYPES="%s"' % inc] + (["-DCODECS"] if g == "codec" else [])))
    objs = compile_objs(c, items, "-O1" if c.quick else "-O2", "a program that refuses memory")
    exes = {i[0]: link(c, "rooms_" + i[0], [o]) for i, o in zip(items, objs)}
    turns = Turns(c)
    work = []
    for g in GROUPS:
        w = World()
        m = w.stream(c.rng.randbytes(600))
        work.append((g, w, globals()[g + "_plan"](c, w, m, turns)))
    parallel([lambda g=g, w=w, ss=ss: conform(c, exes[g], w, ss, g, shards=2 if c.quick else 4, parts=2) for g, w, ss in work],
             jobs=5)
    c.note(forms_and_refusals={k: len(v) for k, v in sorted(turns.used.items())})
    c.assumptions += ["Memory is refused by the global operator new (vector, string) and by a container of the check's own.",
                      "A container that shrinks does not ask for memory."]


def given_up(turns, s, o, n):
    """A digest that is refused its memory and not asked for again; it may have ended the message."""
    turns.only = (turns.c.rng.randrange(2, 8), -1)
    return s.dig(o, n)


def rounds(c, n):
    return n if c.quick else 5 * n


def piece(c, m, top=520, sizes=None):
    n = c.rng.choice(sizes or [0, 1, 15, 16, 17, 33, 64, 65, 100, c.rng.randrange(top), c.rng.randrange(top)])
    return m, c.rng.randrange(600 - n + 1), n


def hash_plan(c, w, m, turns):
    ss = []
    for i in range(rounds(c, 40)):
        alg = ("sha_1_160", "sha_2_512")[i % 2]
        D = DIGEST[alg]
        s = RoomSession(turns, (alg, i % 4)).new(1, "hash", alg, alg)
        for j in range(3):
            s.upd(1, piece(c, m, 150)).cpy(2, 1)
            given_up(turns, s, 1, D + c.rng.randrange(9))
            for k in range(3):
                s.dig(1, c.rng.choice([0, 1, D - 1, D, D + 1, 16, 17, 300]))
            s.upd(2, piece(c, m, 150)).dig(2, D).asg(1, 2).dig(1, D).drop(2).rst(1)
            f = (alg, alg, D, D)
            one(c, s, turns, "1hash", f, lambda: [piece(c, m, 150)], [0, 1, D, D + 1, 16, 17, 300], D)
        ss.append(s)
    return ss


def one(c, s, turns, op, f, refs, sizes, full):
    """Calls that need no object; an array has a size of its own."""
    for k in range(3):
        n = c.rng.choice(sizes)
        i = c.rng.randrange(1, 3) if op == "1pbk" else None
        s.one(op, f, refs(), n, i)
        if s.lines[-1].split()[1] == "8":
            s.events[-1]["n"] = full


def mac_plan(c, w, m, turns):
    ss = []
    for i in range(rounds(c, 40)):
        name, alg = (("hmac_sha_2_256", "sha_2_256"), ("poly_1305", "poly_1305"))[i % 2]
        D = DIGEST[alg]
        s = RoomSession(turns, (alg, i % 4)).new(1, "mac", name, alg)
        for j in range(3):
            s.key(1, piece(c, m, sizes=[0, 20, 32, 65]))
            s.upd(1, piece(c, m, 100)).cpy(2, 1)
            given_up(turns, s, 1, D + c.rng.randrange(9))
            for k in range(3):
                s.dig(1, c.rng.choice([0, 1, D - 1, D, D + 1, 16, 17, 300]))
            s.upd(2, piece(c, m, 100)).dig(2, D).asg(1, 2).dig(1, D).drop(2)
            one(c, s, turns, "1mac", (name, alg, D, D), lambda: [piece(c, m, sizes=[0, 32, 65]), piece(c, m, 100)],
                [0, 1, D, D + 1, 17, 300], D)
        ss.append(s)
    return ss


def hkdf_plan(c, w, m, turns):
    D = DIGEST["sha_2_224"]
    ss = []
    for i in range(rounds(c, 30)):
        s = RoomSession(turns, ("hkdf", i % 4)).new(1, "hkdf", "hkdf_sha_2_224", "sha_2_224")
        p = lambda: [piece(c, m, sizes=[0, 20]), piece(c, m, sizes=[0, 28]), piece(c, m, sizes=[0, 30])]
        s.hkdf(1, *p())
        for k in range(6):
            s.der(1, c.rng.choice([0, 1, 15, 16, D - 1, D, 33, 60]))
            if k == 2:
                s.cpy(2, 1)
            if k > 2:
                s.der(2, 20)
        one(c, s, turns, "1hkdf", ("hkdf_sha_2_224", "sha_2_224", D, D), p, [0, 1, D, 16, 17, 90], 100)
        ss.append(s)
    return ss


def pbkdf_plan(c, w, m, turns):
    D = DIGEST["sha_1_160"]
    ss = []
    for i in range(rounds(c, 30)):
        s = RoomSession(turns, ("pbkdf", i % 4)).new(1, "pbkdf", "pbkdf_sha_1_160", "sha_1_160")
        p = lambda: [piece(c, m, sizes=[0, 20]), piece(c, m, sizes=[0, 28])]
        s.pbk(1, *p(), c.rng.randrange(1, 3))
        for k in range(6):
            s.der(1, c.rng.choice([0, 1, 15, 16, D - 1, D, 33, 40]))
        one(c, s, turns, "1pbk", ("pbkdf_sha_1_160", "sha_1_160", D, D), p, [0, 1, D, 16, 17, 50], 100)
        ss.append(s)
    return ss


def cipher_plan(c, w, m, turns):
    ss = []
    for i in range(rounds(c, 40)):
        k, v = (m, i % 8, 32), (m, i % 5, 16)
        w.use_ks("cipher", k, v, 6000)
        s = RoomSession(turns, ("cipher", i % 40)).new(1, "cipher", "chacha_20", "chacha_20").pair("cip", 1, k, v)
        for j in range(9):
            s.crypt(c.rng.choice(["enc", "dec"]), 1, piece(c, m))
            if j == 3:
                s.cpy(2, 1)
            if j > 6:
                s.crypt("enc", 2, piece(c, m))
        for j in range(5):
            s.one(c.rng.choice(["1enc", "1dec"]), ("chacha_20", "chacha_20", 0, 0), [k, v, piece(c, m)])
        ss.append(s)
    return ss


def aead_plan(c, w, m, turns):
    ss = []
    for i in range(rounds(c, 40)):
        k, v = (m, i % 8, 32), (m, i % 5, 12)
        w.use_ks("aead", k, v, 3000)
        s = RoomSession(turns, ("aead", i % 40)).new(1, "aead", "aead", "chacha_20_poly_1305").pair("aead", 1, k, v)
        s.aad(1, piece(c, m, 40))
        for j in range(5):
            s.crypt("enc" if i % 2 else "dec", 1, piece(c, m, 120))
        given_up(turns, s, 1, 16)
        for j in range(4):
            s.dig(1, c.rng.choice([0, 1, 15, 16, 17, 33]))
        s.ver(1, piece(c, m, sizes=[0, 15, 16, 17]))
        for j in range(3):
            a, p = piece(c, m, sizes=[0, 16, 20]), piece(c, m, 120)
            s.seal("aead", k, v, a, p, st=1003, su=1004)
            for q in range(3):
                s.open("aead", k, v, a, (1003, 0, p[2]), (1004, 0, 16))
            s.mflip(1004, 1 + i % 16, 1)
            for q in range(2):
                s.open("aead", k, v, a, (1003, 0, p[2]), (1004, 0, 16))
        ss.append(s)
    return ss


def codec_plan(c, w, m, turns):
    ss = []
    for i in range(rounds(c, 50)):
        s = RoomSession(turns, ("codec", i % 8))
        for j in range(3):
            for k in ("base_16", "base_64"):
                s.cenc(k, piece(c, m, 150)).cenc(k, piece(c, m, 300))
                b = c.rng.randbytes(c.rng.choice([0, 1, 14, 15, 16, 17, 33, c.rng.randrange(140)]))
                t = b.hex().encode() if k == "base_16" else base64.b64encode(b)
                if c.rng.random() < 0.4 and t:
                    z = c.rng.randrange(len(t))
                    t = t[:z] + bytes([c.rng.choice(b"!=gz\x00\xff-\x80 A5")]) + t[z + 1:]
                x = w.stream(t)
                for q in range(3):
                    s.cdec(k, (x, 0, len(t)), (len(t) + 1) // 2 if k == "base_16" else len(t) // 4 * 3)
        ss.append(s)
    return ss
