"""C04: HKDF output for any input and slicing."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "DeriveDesign")
    exe = build_interp(c, "interp", [t for a in HASHES for t in types.hkdf_types(a)])
    inputs(c, exe)
    wide(c, exe)
    slicing(c, exe)
    whole(c, exe)
    histories(c, exe)
    c.assumptions += ["Contents of the inputs are sampled; their lengths and the slicings at the borders are enumerated."]


def inputs(c, exe):
    """Input keying material, salt and info of many lengths."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(4 * b))
        sizes = around(0, D, b - 9, b, 2 * b) + [5]
        tys = types.hkdf_types(alg)
        for i in range(90 if c.quick else 1500):
            kind, name, _ = tys[i % len(tys)]
            # One of the three of an exceptional length at least.
            n = [c.rng.choice(sizes) if c.rng.random() < 0.5 else c.rng.randrange(3 * b) for _ in range(3)]
            n[i % 3] = sizes[i // 3 % len(sizes)]
            s = Session(group=(alg, i % 4))
            s.new(1, kind, name, alg)
            s.hkdf(1, *[(m, c.rng.randrange(4 * b - x), x, place(c.rng)) for x in n])
            for x in cut(c.rng, c.rng.randrange(3 * D), 3):
                s.der(1, x, place(c.rng))
            ss.append(s)
    conform(c, exe, w, ss, "inputs")


def wide(c, exe):
    """Inputs whose length takes two, three and five bytes."""
    w = World()
    m = w.stream(c.rng.randbytes(2 ** 16 + 400))
    short = lambda: (m, c.rng.randrange(300), c.rng.randrange(60))
    ss = []
    for i, alg in enumerate(HASHES):
        tys = types.hkdf_types(alg)
        # The long one of the three: input keying material, salt, info.
        for j in range(3):
            for n in (2 ** 8, 2 ** 16):
                for kind, name, _ in [c.rng.choice(tys)] if c.quick else tys:
                    n += c.rng.randrange(300)
                    k = [short(), short(), short()]
                    k[j] = (m, c.rng.randrange(50), n)
                    s = Session(group=(alg, n))
                    s.cost = n / 64
                    s.new(1, kind, name, alg).hkdf(1, *k).der(1, 37, place(c.rng))
                    ss.append(s)
    conform(c, exe, w, ss, "wide")
    ss = []
    for alg in ("sha_1_160", "sha_2_256", "sha_2_512") if c.quick else HASHES:
        kind, name, _ = types.hkdf_types(alg)[-1]
        for u in (16,) if c.quick else (2, 16):
            # Zeros; the salt for the first is empty.
            for k in [((-1, u, c.rng.randrange(200)), (-1, 0, 0), short()), (short(), (-1, u, c.rng.randrange(200)), short())]:
                s = Session(group=alg)
                s.new(1, kind, name, alg).hkdf(1, *k).der(1, 37, place(c.rng))
                ss.append(s)
    conform(c, exe, w, ss, "long", shards=3, parts=6, timeout=600)


def slicing(c, exe):
    """l bytes left over, n more, with blocks of any index before."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(4 * b))
        tys = types.hkdf_types(alg)
        for t, (kind, name, _) in enumerate(tys):
            k = [(m, 3 * t, 22), (m, b + t, 13), (m, 2 * b + t, c.rng.choice([0, 10, b]))]
            if not c.quick:
                k = [(m, 3 * t, 22), (m, b + t, 13), (m, 2 * b + t, 10 * t)]
            w.use_okm("hkdf", (alg, D, D), *k, 12 * D)
            s0 = Session(group=alg)
            s0.new(1, kind, name, alg).hkdf(1, *k)
            for f in range(D + 1):
                s = Session(group=alg)
                s.lines += s0.lines[1:]
                s.events += s0.events[1:]
                q = c.rng.randrange(5)
                if q:
                    s.der(1, q * D)
                s.der(1, f, place(c.rng))
                ns = {0, 1, D - f - 1, D - f, D - f + 1, D, 2 * D - f, 2 * D - f + 1, 3 * D + 1, c.rng.randrange(4 * D)} \
                    if c.quick else range(4 * D + 1)
                for n in sorted(x for x in ns if x >= 0):
                    s.cpy(2, 1).der(2, n, place(c.rng)).der(2, c.rng.randrange(D + 2), place(c.rng)).drop(2)
                ss.append(s)
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing")


def whole(c, exe):
    """The whole stream of 255 digests, in one piece and in random ones, up to its last byte."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(3 * b))
        k = [(m, 0, 32), (m, b, 20), (m, 2 * b, 9)]
        w.use_okm("hkdf", (alg, D, D), *k, 255 * D)
        for t, (kind, name, _) in enumerate(types.hkdf_types(alg)):
            def start():
                s = Session(group=alg)
                s.new(1, kind, name, alg).hkdf(1, *k)
                ss.append(s)
                return s
            start().der(1, 255 * D).der(1, 0)
            start().der(1, 254 * D).der(1, D - 1).der(1, 1).der(1, 0)
            start().der(1, 253 * D + 1).der(1, 2 * D - 1)
            for _ in range(2 if c.quick else 20):
                s = start()
                left = 255 * D
                while left:
                    n = min(left, c.rng.choice([1, D - 1, D, D + 1, 2 * D, c.rng.randrange(6 * D), c.rng.randrange(40 * D)]))
                    s.der(1, n, place(c.rng))
                    left -= n
            if c.quick and t:
                break
    conform(c, exe, w, ss, "whole", shards=7)


def histories(c, exe):
    """Random histories of set up and derivation."""
    w = World()
    plans = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(pattern(c.rng, 6 * b))
        for kind, name, _ in types.hkdf_types(alg):
            pro = Session().new(1, kind, name, alg)
            al = Session()
            for n in [(0, 0, 0), (D, 0, 3), (b + 1, b, b), (5, b + 1, 0), (b, 1, 2 * b)]:
                al.hkdf(1, *[(m, c.rng.randrange(3 * b), x, place(c.rng)) for x in n])
            for n in (0, 1, D - 1, D, D + 1, 2 * D + 3):
                al.der(1, n, place(c.rng))
            plans.append((alg, pro, al))
    behaviours(c, exe, w, plans, "histories", 7, 20 if c.quick else 300)
