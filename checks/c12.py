"""C12: Base64."""
import base64
import itertools

from mv.core import *
from mv.plans import *

KIND = "base_64"
ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def check(c):
    design(c, "CodecDesign", "CodecDesignQuick.cfg" if c.quick else None)
    exe = build_interp(c, "interp", [])
    encode(c, exe)
    groups(c, exe)
    padding(c, exe)
    positions(c, exe)
    mixed(c, exe)
    wide(c, exe)
    long(c, exe)
    c.assumptions += ["Within a group all pairs of characters are decoded at all pairs of positions; of the 2^32 groups of "
                      "arbitrary bytes those that differ from valid ones in up to two positions."]


def decode(c, s, m, a, n, form=0):
    # Room for what valid text of that size can yield: padding may tell less, errors, too.
    s.cdec(KIND, (m, a, n, place(c.rng)), (n + 3) // 4 * 3, form, "p%d" % c.rng.randrange(64) if c.rng.random() < 0.3 else "e")


def encode(c, exe):
    """Every small size and back."""
    w = World()
    ss = []
    m = w.stream(bytes(range(256)) + pattern(c.rng, 400))
    for n in range(0, 260 if not c.quick else 130):
        for r in range(2):
            s = Session(group=n % 8)
            a = c.rng.randrange(656 - n)
            s.cenc(KIND, (m, a, n, place(c.rng)), place(c.rng)).cesz(KIND, (m, a, n, place(c.rng)))
            t = base64.b64encode(w.streams[m - 1][a:a + n])
            t = w.stream(t)
            s.cdsz(KIND, (t, 0, w.size(t), place(c.rng)))
            for f in range(3):
                decode(c, s, t, 0, w.size(t), f)
            ss.append(s)
    s = Session(group=0)
    for i in range(256):
        s.cenc(KIND, (m, i, 1, place(c.rng)), place(c.rng))
        for x in (i, 255 - i):
            s.mset(100, [i, x]).cenc(KIND, (100, 0, 2, place(c.rng)), place(c.rng))
    ss.append(s)
    conform(c, exe, w, ss, "encode")


def groups(c, exe):
    """All pairs of characters at all pairs of positions of a group, and before padding."""
    w = World()
    ss = []
    shapes = ["xy==", "xyz=", "xzy=", "xyzz", "xzyz", "xzzy", "zxyz", "zxzy", "zzxy"]
    if c.quick:
        shapes = ["xy==", "zxy=", "xyzz", "zzxy"]
    for sh_ in shapes:
        for x in ALPHABET:
            z = [c.rng.choice(ALPHABET) for _ in range(2)]
            v = bytearray()
            for y in ALPHABET:
                it = iter(z)
                v += bytes({"x": x, "y": y, "=": 61}.get(q) if q != "z" else next(it, 65) for q in sh_)
            m = w.stream(v)
            s = Session(group=x % 8)
            for i in range(64):
                decode(c, s, m, 4 * i, 4, i % 2)
            ss.append(s)
    c.note(groups_decoded=len(ss) * 64)
    conform(c, exe, w, ss, "groups")


def padding(c, exe):
    """All placements of padding and of characters outside the alphabet in up to two groups, and
    of padding in three."""
    w = World()
    ss = []
    jobs = [(4, [65, 47, 61, 33, 0xBD]), (8, [66, 61, 33])]
    if not c.quick:
        jobs += [(8, [67, 61, 0xE1, 0]), (12, [68, 61])]
    for n, syms in jobs:
        for pre in itertools.product(syms, repeat=n - 4):
            v = bytearray()
            for t in itertools.product(syms, repeat=4):
                v += bytes(pre) + bytes(t)
            m = w.stream(v)
            s = Session(group=hash(pre) % 8)
            for i in range(len(v) // n):
                decode(c, s, m, i * n, n, i % 3)
                s.cdsz(KIND, (m, i * n, n))
            ss.append(s)
    # Wrong lengths.
    for n in range(0, 30):
        for pad in range(3):
            t = (bytes(c.rng.choice(ALPHABET) for _ in range(n)) + b"==")[:n + pad]
            m = w.stream(t)
            s = Session(group=n % 8)
            for f in range(3):
                decode(c, s, m, 0, len(t), f)
            s.cdsz(KIND, (m, 0, len(t)))
            ss.append(s)
    conform(c, exe, w, ss, "padding")


def positions(c, exe):
    """Every byte value at every position of texts of one to three groups."""
    w = World()
    ss = []
    for n in range(1, 8 if c.quick else 10):
        t = base64.b64encode(pattern(c.rng, n))
        for p in range(len(t)):
            s = Session(group=(n + p) % 8)
            for x in range(256):
                s.mset(100, t[:p] + bytes([x]) + t[p + 1:])
                decode(c, s, 100, 0, len(t), c.rng.randrange(3))
                if x % 4 == p % 4:
                    s.cdsz(KIND, (100, 0, len(t)))
            ss.append(s)
    conform(c, exe, w, ss, "positions")


def mixed(c, exe):
    w = World()
    ss = []
    for i in range(150 if c.quick else 4000):
        n = c.rng.choice([c.rng.randrange(50), c.rng.randrange(500)])
        t = bytearray(base64.b64encode(pattern(c.rng, n)))
        for _ in range(c.rng.choice([0, 0, 1, 1, 2])):
            if t:
                t[c.rng.randrange(len(t))] = c.rng.choice([61, c.rng.randrange(256)])
        m = w.stream(t)
        s = Session(group=i % 8)
        decode(c, s, m, 0, len(t), i % 3)
        s.cdsz(KIND, (m, 0, len(t))).cenc(KIND, (m, 0, len(t), place(c.rng)), place(c.rng))
        ss.append(s)
    conform(c, exe, w, ss, "mixed")


def wide(c, exe):
    """Sizes and positions of more than 16 bits."""
    w = World()
    ss = []
    for i, n in enumerate((50000, 2 ** 16 - 1, 3 * 2 ** 16 + 1)):
        b = c.rng.randbytes(n)
        m = w.stream(b)
        t = bytearray(base64.b64encode(b))
        s = Session(group=i)
        s.cenc(KIND, (m, 0, n, place(c.rng)), place(c.rng)).cesz(KIND, (m, 0, n))
        x = w.stream(t)
        decode(c, s, x, 0, len(t), i % 3)
        s.cdsz(KIND, (x, 0, len(t)))
        # One bad character beyond the first 2^16.
        t[c.rng.randrange(2 ** 16, len(t))] = 46
        x = w.stream(t)
        decode(c, s, x, 0, len(t), (i + 1) % 3)
        ss.append(s)
    conform(c, exe, w, ss, "wide", shards=4)


def long(c, exe):
    """Sizes and positions of more than 32 bits; the size functions at many more sizes."""
    w = World()
    ss = []
    for u in (2, 16) if c.quick else (1, 2, 4, 5, 8, 11, 15, 16):
        for n in (c.rng.randrange(200),) if u == 2 or c.quick else (c.rng.randrange(200), 2 ** 27 + c.rng.randrange(2 ** 20)):
            ss.append(Session(group=u).cencz(KIND, u, n))
            n = 4 * c.rng.randrange(2 ** 18)
            for v in (b"/w==", b"AB+=", b"a.cd", b"A", b"x==y1234"):
                ss.append(Session(group=u).cdecz(KIND, u, n, v, c.rng.randrange(2)))
                if c.quick and u == 16:
                    break
    s = Session(group=0)
    for u in range(1, 17):
        for n in (0, 1, 2, 3, c.rng.randrange(2 ** 28), 2 ** 28 - 1):
            s.ceszz(KIND, u, n)
            for v in (b"", b"A=", b"AA=="):
                s.cdszz(KIND, u, n, v)
    ss.append(s)
    conform(c, exe, w, ss, "long", parts=8, shards=3, timeout=600)
