"""C11: Base16."""
from mv.core import *
from mv.plans import *

KIND = "base_16"
DIGITS = b"0123456789abcdefABCDEF"


def check(c):
    design(c, "CodecDesign", "CodecDesignQuick.cfg" if c.quick else None)
    exe = build_interp(c, "interp", [])
    encode(c, exe)
    pairs(c, exe)
    positions(c, exe)
    mixed(c, exe)
    wide(c, exe)
    long(c, exe)
    c.assumptions += ["Every pair of bytes is decoded; longer strings vary one position over all values or are random."]


def decode(c, s, m, a, n, form=0):
    s.cdec(KIND, (m, a, n, place(c.rng)), (n + 1) // 2, form, place(c.rng))


def encode(c, exe):
    """Every byte value, every small size, and back."""
    w = World()
    ss = []
    m = w.stream(bytes(range(256)) + c.rng.randbytes(300))
    for n in range(0, 256 if not c.quick else 130):
        s = Session(group=n % 8)
        a = c.rng.randrange(556 - n)
        s.cenc(KIND, (m, a, n, place(c.rng)), place(c.rng)).cesz(KIND, (m, a, n, place(c.rng)))
        x = w.streams[m - 1][a:a + n].hex()
        t = w.stream((x if n % 3 == 0 else x.upper() if n % 3 == 1 else
                      "".join(c.rng.choice([q, q.upper()]) for q in x)).encode())
        s.cdsz(KIND, (t, 0, 2 * n, place(c.rng)))
        for f in range(3):
            decode(c, s, t, 0, 2 * n, f)
        ss.append(s)
    s = Session(group=0)
    for i in range(256):
        s.cenc(KIND, (m, i, 1, place(c.rng)), place(c.rng))
    ss.append(s)
    conform(c, exe, w, ss, "encode")


def pairs(c, exe):
    """Every pair of bytes."""
    w = World()
    ss = []
    for i in range(256):
        m = w.stream(bytes(x for j in range(256) for x in (i, j)))
        s = Session(group=i % 8)
        for j in range(256):
            decode(c, s, m, 2 * j, 2, (i + j) % 2)
            if j % 16 == i % 16:
                decode(c, s, m, 2 * j, 2, 2)
        ss.append(s)
    c.note(pairs=65536)
    conform(c, exe, w, ss, "pairs")


def positions(c, exe):
    """Every byte value at every position of strings of every small length, odd ones included."""
    w = World()
    ss = []
    for n in range(0, 9 if c.quick else 21):
        v = bytes(c.rng.choice(DIGITS) for _ in range(n))
        s = Session(group=n % 8)
        m = w.stream(v)
        for f in range(3):
            decode(c, s, m, 0, n, f)
        s.cdsz(KIND, (m, 0, n))
        ss.append(s)
        for p in range(n):
            s = Session(group=(n + p) % 8)
            for x in range(256):
                if c.quick and n > 4 and x % 5 and x not in DIGITS and x < 128:
                    continue
                s.mset(100, v[:p] + bytes([x]) + v[p + 1:])
                decode(c, s, 100, 0, n, c.rng.randrange(3))
                s.cdsz(KIND, (100, 0, n))
            ss.append(s)
    conform(c, exe, w, ss, "positions")


def mixed(c, exe):
    """Long strings, mostly valid."""
    w = World()
    ss = []
    for i in range(150 if c.quick else 4000):
        n = c.rng.choice([c.rng.randrange(70), c.rng.randrange(700)])
        x = bytearray(c.rng.choice(DIGITS) for _ in range(n))
        for _ in range(c.rng.choice([0, 0, 1, 1, 2])):
            if n:
                x[c.rng.randrange(n)] = c.rng.randrange(256)
        m = w.stream(x)
        s = Session(group=i % 8)
        decode(c, s, m, 0, n, i % 3)
        s.cdsz(KIND, (m, 0, n)).cenc(KIND, (m, 0, n, place(c.rng)), place(c.rng))
        ss.append(s)
    conform(c, exe, w, ss, "mixed")


def wide(c, exe):
    """Sizes and positions of more than 16 bits."""
    w = World()
    ss = []
    for i, n in enumerate((2 ** 15 + 3, 2 ** 16 - 1, 2 ** 16 + 1)):
        b = c.rng.randbytes(n)
        m = w.stream(b)
        t = bytearray(b.hex().encode())
        s = Session(group=i)
        s.cenc(KIND, (m, 0, n, place(c.rng)), place(c.rng)).cesz(KIND, (m, 0, n))
        x = w.stream(t)
        decode(c, s, x, 0, len(t), i % 3)
        s.cdsz(KIND, (x, 0, len(t)))
        # One bad character beyond the first 2^16.
        t[c.rng.randrange(2 ** 16, len(t))] = 46
        x = w.stream(t)
        decode(c, s, x, 0, len(t), (i + 1) % 3)
        ss.append(s)
    conform(c, exe, w, ss, "wide", shards=4)


def long(c, exe):
    """Sizes and positions of more than 32 bits; the size functions at many more sizes."""
    w = World()
    ss = []
    for u in (2, 16) if c.quick else (1, 2, 4, 5, 8, 11, 15, 16):
        for n in (c.rng.randrange(200),) if u == 2 or c.quick else (c.rng.randrange(200), 2 ** 27 + c.rng.randrange(2 ** 20)):
            ss.append(Session(group=u).cencz(KIND, u, n))
            n = c.rng.randrange(2 ** 20)
            for v in (b"a7F", b"0", b"1g", b"g123456"):
                ss.append(Session(group=u).cdecz(KIND, u, n, v, c.rng.randrange(2)))
                if c.quick and u == 16:
                    break
    s = Session(group=0)
    for u in range(1, 17):
        for n in (0, 1, 2, 3, c.rng.randrange(2 ** 28), 2 ** 28 - 1):
            s.ceszz(KIND, u, n)
            for v in (b"", b"1", b"aBc"):
                s.cdszz(KIND, u, n, v)
    ss.append(s)
    conform(c, exe, w, ss, "long", parts=8, shards=3, timeout=600)
