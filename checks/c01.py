"""C01: hash digests under any slicing, alignment and backend."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "HashDesign")
    tys = [t for a in HASHES for t in types.hash_types(a)]
    exe = build_interp(c, "interp", tys)
    slicing(c, exe)
    histories(c, exe)
    long(c, exe)
    c.assumptions += ["Between the calls of a schedule the library sees only addresses, sizes and bytes: "
                      "alignments are sampled, not enumerated.",
                      "More than 2^32 bytes are explored with zeros at 2^29 and 2^32 bytes."]


def slicing(c, exe):
    """Every transition of HashDesign at the real block sizes: an object with f bytes in its
    buffer gets n more."""
    w = World()
    ss = []
    for alg in HASHES:
        b = BLOCK[alg]
        top = 4 * b + 8
        m = w.stream(c.rng.randbytes(top))
        w.use_hash(alg, m, top)
        for t, (kind, name, _) in enumerate(types.hash_types(alg)):
            sweep(c, ss, alg, lambda s: s.new(1, kind, name, alg), b, m, DIGEST[alg],
                  lambda f: edges(c.rng, f, b, wide=t == 0) if c.quick else range(3 * b + 3))
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing", timeout=600)


def histories(c, exe):
    """Random histories of Milo: updates of many sizes, digests of any length, several rounds."""
    plans = []
    w = World()
    for alg in HASHES:
        b = BLOCK[alg]
        m = w.stream(pattern(c.rng, 20 * b))
        for kind, name, _ in types.hash_types(alg):
            pro = Session().new(1, kind, name, alg)
            al = Session()
            for n in [0, 1, 3, b - 9, b - 8, b - 1, b, b + 1, 2 * b, 5 * b + 3] + [c.rng.randrange(20 * b) for _ in range(2)]:
                al.upd(1, (m, c.rng.randrange(20 * b - n + 1), n, place(c.rng)))
            al.rst(1)
            for n in (0, 1, DIGEST[alg] - 1, DIGEST[alg], DIGEST[alg] + 9):
                al.dig(1, n, place(c.rng))
            plans.append((alg, pro, al))
    behaviours(c, exe, w, plans, "histories", 9, 40 if c.quick else 600)


def long(c, exe):
    """Messages of more than 2^32 bits and more than 2^32 bytes, in one piece and in several."""
    w = World()
    m = w.stream(c.rng.randbytes(300))
    ss = []
    for alg in HASHES:
        tys = types.hash_types(alg)
        for i, (kind, name, _) in enumerate(tys):
            for u in (2, 16):
                if c.quick and u == 16 and i == 0 and len(tys) > 1:
                    continue        # the default is one of the backends that follow
                s = Session(group=alg)
                x = c.rng.randrange(1, BLOCK[alg])
                s.new(1, kind, name, alg)
                s.upd(1, (-1, 0, x)).upd(1, (-1, u, c.rng.randrange(9)) if u == 16 or i else (-1, u - 1, 2 ** 28 - c.rng.randrange(1, x + 1))).upd(1, (m, 0, c.rng.randrange(300)))
                s.dig(1, 64)
                ss.append((u, s))
    ss.sort(key=lambda x: -x[0])
    conform(c, exe, w, [s for _, s in ss], "long", shards=3, parts=8, timeout=600)
