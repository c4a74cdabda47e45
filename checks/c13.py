"""C13: all forms of a call agree and honour the requested output size."""
import base64

from mv.core import *
from mv.plans import *

GROUPS = {
    "hash1": ['HASH("sha_1_160", mp::hash_sha_1_160)'],
    "hash2": ['HASH("sha_2_512_224", mp::hash_sha_2_512_224)'],
    "mac1": ['MAC("hmac_sha_2_256", mp::mac_hmac_sha_2_256)'],
    "mac2": ['MAC("poly_1305", mp::mac_poly_1305)'],
    "hkdf": ['HKDF("hkdf_sha_2_224", mp::kdf_hkdf_hmac_sha_2_224)'],
    "pbkdf": ['PBKDF("pbkdf_sha_1_160", mp::kdf_pbkdf_2_hmac_sha_1_160)'],
    "cipher": ['CIPHER("chacha_20", mp::cipher_chacha_20)'],
    "aead": ['AEAD("aead", mp::aead_chacha_20_poly_1305)'],
    "codec": [],
}
FORMS = {"upd": 60, "aad": 60, "dig": 288, "der": 216, "key": 120, "hkdf": 32, "pbk": 32, "cip": 32, "aead": 32,
         "enc": 720, "dec": 720, "esz": 20, "dsz": 20, "ver": 80, "1hash": 720, "1mac": 288, "1hkdf": 288, "1pbk": 288,
         "1enc": 144, "1dec": 144, "seal": 288, "open": 288, "cesz": 20, "cdsz": 20, "cenc": 360, "cdec": 600}


def check(c):
    items = []
    for g, ts in GROUPS.items():
        inc = "forms_%s.inc" % g
        with open(c.path(inc), "w") as f:
            f.write("\n".join(ts) + "\n")
        items.append((g, "forms.cpp", ['-DTYPES="%s"' % inc] + (["-DCODECS"] if g == "codec" else [])))
    order = sorted(range(len(items)), key=lambda i: items[i][0] not in ("codec", "hash1", "hash2"))
    what = "a program that makes every form of every call"
    objs = compile_objs(c, [items[i] for i in order], "-O1" if c.quick else "-O2", what)
    exes = {items[i][0]: link(c, "forms_" + items[i][0], [o]) for i, o in zip(order, objs)}
    used = {}
    work = []
    for g, plan in (("hash1", hash_plan), ("hash2", hash_plan), ("mac1", mac_plan), ("mac2", mac_plan), ("hkdf", hkdf_plan),
                    ("pbkdf", pbkdf_plan), ("cipher", cipher_plan), ("aead", aead_plan), ("codec", codec_plan)):
        w = World()
        m = w.stream(c.rng.randbytes(300))
        turns = Turns(c, used)
        sessions = plan(c, w, m, g, turns)
        work.append((g, w, sessions))
    for g in ("hash1", "mac1", "hkdf", "pbkdf", "cipher", "aead", "codec"):
        w = World()
        sessions = wide_plan(c, w, w.stream(c.rng.randbytes(2 ** 16 + 80)), g, turns)
        work.insert(0, ("wide_" + g, w, sessions))
    parallel([lambda g=g, w=w, ss=ss: conform(c, exes[g.split("_")[-1]], w, ss, g, shards=2 if c.quick else 4, parts=2)
              for g, w, ss in work], jobs=5)
    c.note(forms={k: "%d of %d" % (len(v), FORMS[k]) for k, v in sorted(used.items()) if k in FORMS})
    c.assumptions += ["Forms are made with one or two algorithms of each kind: they do not depend on the algorithm.",
                      "Element types: char, signed char, unsigned char; containers: those of the library, of which some "
                      "with all element types, strings, string views, arrays."]


class Turns:
    """Hands out the forms of every call in turn."""

    def __init__(self, c, used):
        self.next = {}
        self.used = used
        self.start = c.rng

    def __call__(self, s, op=None):
        """Give the last call of a session a form."""
        op = s.lines[-1].split(" ", 1)[0]
        k = FORMS.get(op, 1)
        n = self.next.setdefault(op, self.start.randrange(k))
        self.next[op] = n + 1
        self.used.setdefault(op, set()).add(n % k)
        a, _, b = s.lines[-1].partition(" ")
        s.lines[-1] = "%s %d %s" % (a, n % k, b)
        return s


class FormSession(Session):
    def __init__(self, turns, group=None):
        super().__init__(group)
        self.turns = turns

    def _add(self, line, ev):
        super()._add(line, ev)
        self.turns(self)
        return self


def rounds(c, n):
    return n if c.quick else 4 * n


def size(c, top):
    return c.rng.choice([0, 1, 7, 32, 64, 65, c.rng.randrange(top), c.rng.randrange(top)])


def piece(c, top=280, sizes=None):
    n = size(c, top) if sizes is None else c.rng.choice(sizes)
    return c.rng.randrange(300 - n + 1), n


def hash_plan(c, w, m, g, turns):
    alg = "sha_1_160" if g == "hash1" else "sha_2_512_224"
    D = DIGEST[alg]
    ss = []
    for i in range(rounds(c, 100)):
        s = FormSession(turns, (g, i % 4))
        s.new(1, "hash", alg, alg)
        for j in range(2):
            for k in range(c.rng.randrange(1, 3)):
                s.upd(1, (m,) + piece(c, 120))
            for k in range(2):
                s.dig(1, c.rng.choice([0, 1, D - 1, D, D + 1, 64, 5, 16, 300]))
            s.rst(1)
        for j in range(8):
            s.one("1hash", (alg, alg, D, D), [(m,) + piece(c, 150)], c.rng.choice([0, 1, D - 1, D, D + 1, 70, 16]))
        ss.append(s)
    return ss


def mac_plan(c, w, m, g, turns):
    name, alg = ("hmac_sha_2_256", "sha_2_256") if g == "mac1" else ("poly_1305", "poly_1305")
    D = DIGEST[alg]
    ss = []
    for i in range(rounds(c, 90)):
        s = FormSession(turns, (g, i % 4))
        s.new(1, "mac", name, alg)
        for j in range(2):
            s.key(1, (m,) + piece(c, sizes=[0, 1, 32, 65, 20, 31, 33]))
            for k in range(c.rng.randrange(1, 3)):
                s.upd(1, (m,) + piece(c, 100))
            for k in range(2):
                s.dig(1, c.rng.choice([0, 1, D - 1, D, D + 1, 7, 16, 300]))
        for j in range(4):
            s.one("1mac", (name, alg, D, D), [(m,) + piece(c, sizes=[0, 1, 32, 65, 90]), (m,) + piece(c, 100)],
                  c.rng.choice([0, 1, D - 1, D, D + 1, 70, 16]))
        ss.append(s)
    return ss


def hkdf_plan(c, w, m, g, turns):
    name, alg = "hkdf_sha_2_224", "sha_2_224"
    D = DIGEST[alg]
    ss = []
    for i in range(rounds(c, 64)):
        s = FormSession(turns, (g, i % 4))
        s.new(1, "hkdf", name, alg)
        p = lambda: [(m,) + piece(c, sizes=[0, 1, 20, 65]), (m,) + piece(c, sizes=[0, 1, 28]), (m,) + piece(c, sizes=[0, 1, 30])]
        s.hkdf(1, *p())
        for k in range(4):
            s.der(1, c.rng.choice([0, 1, D - 1, D + 1, 33, 40]))
        for j in range(4):
            s.one("1hkdf", (name, alg, D, D), p(), c.rng.choice([0, 1, D - 1, D, D + 1, 70, 16]))
        ss.append(s)
    return ss


def pbkdf_plan(c, w, m, g, turns):
    name, alg = "pbkdf_sha_1_160", "sha_1_160"
    D = DIGEST[alg]
    ss = []
    for i in range(rounds(c, 64)):
        s = FormSession(turns, (g, i % 4))
        s.new(1, "pbkdf", name, alg)
        p = lambda: [(m,) + piece(c, sizes=[0, 1, 20, 65]), (m,) + piece(c, sizes=[0, 1, 28])]
        s.pbk(1, *p(), c.rng.randrange(1, 4))
        for k in range(4):
            s.der(1, c.rng.choice([0, 1, D - 1, D + 1, 33, 40]))
        for j in range(4):
            s.one("1pbk", (name, alg, D, D), p(), c.rng.choice([0, 1, D - 1, D, D + 1, 70, 16]), c.rng.randrange(1, 3))
        ss.append(s)
    return ss


def cipher_plan(c, w, m, g, turns):
    ss = []
    for i in range(rounds(c, 100)):
        k, v = (m, i % 8, 32), (m, i % 5, 16)
        w.use_ks("cipher", k, v, 1500)
        s = FormSession(turns, (g, i % 40))
        s.new(1, "cipher", "chacha_20", "chacha_20").pair("cip", 1, k, v)
        for j in range(8):
            s.crypt(c.rng.choice(["enc", "dec"]), 1, (m,) + piece(c, 150))
            if j < 2:
                s.xsz(c.rng.choice(["esz", "dsz"]), 1, (m,) + piece(c, 150))
        for j in range(4):
            s.one(c.rng.choice(["1enc", "1dec"]), ("chacha_20", "chacha_20", 0, 0), [k, v, (m,) + piece(c, 150)])
        ss.append(s)
    return ss


def aead_plan(c, w, m, g, turns):
    ss = []
    for i in range(rounds(c, 80)):
        k, v = (m, i % 8, 32), (m, i % 5, 12)
        w.use_ks("aead", k, v, 1500)
        s = FormSession(turns, (g, i % 40))
        s.new(1, "aead", "aead", "chacha_20_poly_1305").pair("aead", 1, k, v)
        for j in range(c.rng.randrange(3)):
            s.aad(1, (m,) + piece(c, 40))
        for j in range(3):
            s.crypt("enc" if i % 2 else "dec", 1, (m,) + piece(c, 90))
        s.xsz(c.rng.choice(["esz", "dsz"]), 1, (m,) + piece(c, 150))
        for j in range(3):
            s.dig(1, c.rng.choice([0, 1, 15, 16, 17, 33]))
        s.ver(1, (m,) + piece(c, sizes=[0, 15, 16, 17]))
        for j in range(3):
            a, p = (m,) + piece(c, sizes=[0, 1, 16, 20]), (m,) + piece(c, 90)
            s.seal("aead", k, v, a, p, st=1003, su=1004)
            if j == 0:
                s.pair("aead", 1, k, v).aad(1, a).crypt("enc", 1, p)
                s.ver(1, (1004, 0, 16)).ver(1, (1004, 0, c.rng.randrange(16))).mflip(1004, c.rng.randrange(1, 17), 1 << (i % 8))
                s.ver(1, (1004, 0, 16)).mflip(1004, 16, 1)
            for q in range(2):
                s.open("aead", k, v, a, (1003, 0, p[2]), (1004, 0, 16))
                if q == 0 and i % 4 == 0:
                    s.mflip(c.rng.choice([1004] + ([1003] if p[2] else [])), 1, 1)
        ss.append(s)
    return ss


def codec_plan(c, w, m, g, turns):
    ss = []
    for i in range(rounds(c, 100)):
        s = FormSession(turns, (g, i % 8))
        for j in range(4):
            for k in ("base_16", "base_64"):
                s.cenc(k, (m,) + piece(c, 150))
                b = c.rng.randbytes(c.rng.choice([0, 1, 2, 3, 31, 32, 16, c.rng.randrange(140)]))
                t = b.hex().encode() if k == "base_16" else base64.b64encode(b)
                t = bytes(x ^ 32 if k == "base_16" and 97 <= x and c.rng.random() < 0.5 else x for x in t)
                if c.rng.random() < 0.4 and t:
                    z = c.rng.randrange(len(t))
                    t = t[:z] + bytes([c.rng.choice(b"!=gz\x00\xff-\x80 A5")]) + t[z + 1:]
                if c.rng.random() < 0.3 and t:
                    t = t[:-1]
                x = w.stream(t)
                s.cesz(k, (m,) + piece(c, 200)).cdsz(k, (x, 0, len(t)))
                for q in range(2):
                    s.cdec(k, (x, 0, len(t)), (len(t) + 1) // 2 if k == "base_16" else len(t) // 4 * 3)
        ss.append(s)
    return ss


NEAR = [255, 256, 257, 258, 511, 512, 513]
FAR = [2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 16 + 5]


def wide_plan(c, w, m, g, turns):
    """Sizes of more than eight and more than sixteen bits, in every container."""
    ss = []
    for i in range(rounds(c, 24)):
        s = FormSession(turns, (g, i % 2))
        n = [FAR[i % 4], c.rng.choice(NEAR), c.rng.choice(NEAR)]
        x = [(m, c.rng.randrange(8) if g == "codec" else 0, k) for k in n]
        if g == "hash1":
            s.new(1, "hash", "sha_1_160", "sha_1_160")
            if i % 4 == 0:
                s.upd(1, (m, 0, c.rng.choice(FAR))).dig(1, 20)
            for k in x[1:]:
                s.rst(1).upd(1, k).upd(1, k).dig(1, 20)
                for q in range(4):
                    s.one("1hash", ("sha_1_160", "sha_1_160", 20, 20), [k], 20)
            if i % 4 == 1:
                s.one("1hash", ("sha_1_160", "sha_1_160", 20, 20), [(m, 0, c.rng.choice(FAR))], 20)
        elif g == "mac1":
            t = ("hmac_sha_2_256", "sha_2_256", 32, 32)
            s.new(1, "mac", "hmac_sha_2_256", "sha_2_256")
            for k in x[1:]:
                s.key(1, k).upd(1, k).dig(1, 32)
                s.one("1mac", t, [k, (m, 0, 20)], 32).one("1mac", t, [(m, 0, 20), k], 32)
            if i % 8 == 0:
                s.key(1, x[0]).dig(1, 32)
            if i % 8 == 4:
                s.one("1mac", t, [x[0], (m, 0, 20)], 32)
        elif g in ("hkdf", "pbkdf"):
            # Inputs and outputs; further ones of 32 bytes, which all kinds of containers hold.
            name, alg, D = ("hkdf_sha_2_224", "sha_2_224", 28) if g == "hkdf" else ("pbkdf_sha_1_160", "sha_1_160", 20)
            last = [(m, 0, 32)] if g == "hkdf" else [1 + i % 2]
            s.new(1, g, name, alg)
            for j in range(4 if g == "hkdf" else 3):
                p = [(m, 0, 32), (m, 0, 32)] + last
                if j < 3 and not (j == 2 and g == "pbkdf"):
                    p[j] = c.rng.choice(x[1:])
                getattr(s, "hkdf" if g == "hkdf" else "pbk")(1, *p)
                s.der(1, c.rng.choice(NEAR)).der(1, 20)
                s.one("1hkdf" if g == "hkdf" else "1pbk", (name, alg, D, D), p[:3] if g == "hkdf" else p[:2],
                      c.rng.choice(NEAR), *([] if g == "hkdf" else last))
        elif g == "cipher":
            k, v = (m, 0, 32), (m, 0, 16)
            w.use_ks("cipher", k, v, 2 ** 16 + 8)
            s.new(1, "cipher", "chacha_20", "chacha_20")
            for z in x:
                s.pair("cip", 1, k, v)
                s.crypt(c.rng.choice(["enc", "dec"]), 1, z)
                s.one(c.rng.choice(["1enc", "1dec"]), ("chacha_20", "chacha_20", 0, 0), [k, v, z])
        elif g == "aead":
            k, v = (m, 0, 32), (m, 0, 12)
            w.use_ks("aead", k, v, 2 ** 16 + 200)
            s.new(1, "aead", "aead", "chacha_20_poly_1305")
            for q, z in enumerate(x):
                if q == 0 and i % 8:
                    continue
                s.pair("aead", 1, k, v).aad(1, z).crypt("enc" if i % 2 else "dec", 1, z).dig(1, 16)
                s.seal("aead", k, v, (m, 0, n[1]), z, st=1003, su=1004)
                s.open("aead", k, v, (m, 0, n[1]), (1003, 0, z[2]), (1004, 0, 16))
        else:
            for z in x:
                for k in ("base_16", "base_64"):
                    s.cenc(k, z)
                    b = w.streams[m - 1][z[1]:z[1] + z[2]]
                    t = bytearray(b.hex().encode() if k == "base_16" else base64.b64encode(b))
                    if c.rng.random() < 0.3:
                        t[c.rng.randrange(len(t))] = 33
                    y = w.stream(bytes(t))
                    s.cdec(k, (y, 0, len(t)), len(t) // 2 if k == "base_16" else len(t) // 4 * 3)
        ss.append(s)
    return ss
