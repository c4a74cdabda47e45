"""C05: PBKDF2 output for any input and slicing."""
from mv.core import *
from mv.plans import *
from mv import types


def check(c):
    design(c, "DeriveDesign")
    exe = build_interp(c, "interp", [t for a in HASHES for t in types.pbkdf_types(a)])
    inputs(c, exe)
    wide(c, exe)
    slicing(c, exe)
    steps(c)
    far(c, exe)
    counts(c, exe)
    histories(c, exe)
    c.assumptions += ["Contents of the inputs are sampled; iteration counts are explored up to 9 exhaustively, "
                      "and at 257, 65537, 2^20+1 (thorough: 2^24+1) for one input.",
                      "Iteration counts and block indices past these, up to 2^32 - 1, are reached over a pseudorandom function of one addition."]


def inputs(c, exe):
    """Passwords and salts of many lengths, small iteration counts."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(4 * b))
        sizes = around(0, D, b - 9, b - 13, b, 2 * b) + [5]
        tys = types.pbkdf_types(alg)
        for i in range(70 if c.quick else 1200):
            kind, name, _ = tys[i % len(tys)]
            n = [c.rng.choice(sizes) if c.rng.random() < 0.5 else c.rng.randrange(3 * b) for _ in range(2)]
            n[i % 2] = sizes[i // 2 % len(sizes)]
            s = Session(group=(alg, i % 4))
            s.new(1, kind, name, alg)
            it = c.rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9])
            s.pbk(1, *[(m, c.rng.randrange(4 * b - x), x, place(c.rng)) for x in n], it)
            for x in cut(c.rng, c.rng.randrange(2 * D), 3):
                s.der(1, x, place(c.rng))
            ss.append(s)
    conform(c, exe, w, ss, "inputs")


def wide(c, exe):
    """Passwords and salts whose length takes two, three and five bytes."""
    w = World()
    m = w.stream(c.rng.randbytes(2 ** 16 + 400))
    short = lambda: (m, c.rng.randrange(300), c.rng.randrange(60))
    ss = []
    for i, alg in enumerate(HASHES):
        tys = types.pbkdf_types(alg)
        for j in range(2):
            for n in (2 ** 8, 2 ** 16):
                for kind, name, _ in [c.rng.choice(tys)] if c.quick else tys:
                    n += c.rng.randrange(300)
                    k = [short(), short()]
                    k[j] = (m, c.rng.randrange(50), n)
                    s = Session(group=(alg, n))
                    s.cost = n / 64
                    s.new(1, kind, name, alg).pbk(1, *k, 2).der(1, 17, place(c.rng))
                    ss.append(s)
    conform(c, exe, w, ss, "wide")
    ss = []
    for alg in ("sha_1_160", "sha_2_256", "sha_2_512") if c.quick else HASHES:
        kind, name, _ = types.pbkdf_types(alg)[-1]
        for u in (16,) if c.quick else (2, 16):
            # Zeros; the password for the second is empty.
            for k in [((-1, u, c.rng.randrange(200)), short()), ((-1, 0, 0), (-1, u, c.rng.randrange(200)))]:
                s = Session(group=alg)
                s.new(1, kind, name, alg).pbk(1, *k, 2).der(1, 17, place(c.rng))
                ss.append(s)
    conform(c, exe, w, ss, "long", shards=3, parts=6, timeout=600)


def slicing(c, exe):
    """l bytes left over, n more, with blocks of any index before."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(4 * b))
        for t, (kind, name, _) in enumerate(types.pbkdf_types(alg)):
            k = [(m, 3 * t, 22), (m, b + t, 13)]
            it = 1 + t
            w.use_okm("pbkdf", (alg, D, D), *k, it, 14 * D)
            for f in range(D + 1):
                s = Session(group=alg)
                s.new(1, kind, name, alg).pbk(1, *k, it)
                q = c.rng.randrange(5)
                if q:
                    s.der(1, q * D)
                s.der(1, f, place(c.rng))
                ns = {0, 1, D - f - 1, D - f, D - f + 1, D, 2 * D - f, 2 * D - f + 1, 3 * D + 1, c.rng.randrange(4 * D)} \
                    if c.quick else range(4 * D + 1)
                for n in sorted(x for x in ns if x >= 0):
                    s.cpy(2, 1).der(2, n, place(c.rng)).der(2, c.rng.randrange(D + 2), place(c.rng)).drop(2)
                ss.append(s)
    c.note(transitions_driven=sum(len(s.events) // 4 for s in ss))
    conform(c, exe, w, ss, "slicing")


def far(c, exe):
    """Blocks whose index takes two and three bytes (and four in the thorough tier)."""
    w = World()
    ss = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(c.rng.randbytes(b))
        tys = types.pbkdf_types(alg)
        for t, (kind, name, _) in enumerate(tys):
            marks = [2 ** 8, 2 ** 16]
            if not c.quick and alg in ("sha_1_160", "sha_2_256") and t == len(tys) - 1:
                marks.append(2 ** 24)
            for x in marks:
                s = Session(group=alg)
                s.new(1, kind, name, alg).pbk(1, (m, 0, 9), (m, 9, 13), 1)
                f = c.rng.randrange(2 * D)
                s.derz(1, (x - 2) * D + f, c.rng.randrange(1, 40))
                for _ in range(3):
                    s.der(1, c.rng.randrange(1, 3 * D), place(c.rng))
                ss.append(s)
    conform(c, exe, w, ss, "far", parts=8, shards=7)


def counts(c, exe):
    """Iteration counts past one, two and more bytes, against the values of spec/lib/Long.tla."""
    w = World()
    p, s = w.stream(b"milo"), w.stream(b"salt")
    ss = []
    for alg in HASHES:
        for kind, name, _ in types.pbkdf_types(alg):
            for it in (257, 65537, 2 ** 20 + 1, 2 ** 24 + 1):
                if it > 2 ** 24 and (alg not in ("sha_1_160", "sha_2_224", "sha_2_256") or c.quick):
                    continue
                se = Session(group=alg)
                se.new(1, kind, name, alg).pbk(1, (p, 0, 4), (s, 0, 4), it).der(1, 7).der(1, 13)
                ss.append((it, se))
    ss.sort(key=lambda x: -x[0])
    conform(c, exe, w, [x for _, x in ss], "counts", parts=8, shards=2, timeout=500)


def steps(c):
    """The whole range of iterations and of block indices, over a function of one addition (spec/Steps.tla)."""
    design(c, "StepsDesign")
    exe = build(c, "steps", [os.path.join(HARNESS, "steps.cpp")], objs=[])
    runs = [(8, it, 0) for it in (1, 2, 3, 255, 256, 257, 2 ** 16, 2 ** 16 + 1, 2 ** 24 - 1, 2 ** 24, 2 ** 31, 2 ** 31 + 3, 2 ** 32 - 1)]
    runs += [(w, it, i) for w in (8, 5, 1) for it in (1, 2) for i in (250, 65530, 2 ** 24 - 5)]
    runs += [(1, 1, i) for i in (2 ** 31 - 9, 2 ** 32 - 70)]
    if not c.quick:
        runs += [(w, it, 0) for w in (8, 5) for it in [2 ** k + c.rng.randrange(2 ** k) for k in range(2, 32)]]
        runs += [(w, 1, c.rng.randrange(2 ** 31)) for w in (8, 5, 1) for _ in range(2)] + [(8, 1, 2 ** 32 - 70)]
    runs.sort(key=lambda r: -r[1] * (8 if r[2] == 0 else 8 * r[2]))

    def one(w, it, i):
        salt = c.rng.randbytes(c.rng.randrange(12))
        key = "".join(c.rng.choice(["01", "0100", "0001", "000100"]))
        skip = i * w + c.rng.randrange(w)
        cuts = [c.rng.randrange(1, 3 * w + 1) for _ in range(6)]
        r = sh([exe, str(w), str(it), key, salt.hex() or "-", str(skip)] + [str(x) for x in cuts], timeout=800)
        if r.returncode:
            return {"run": [w, it, i, cuts], "exit": r.returncode, "error": r.stderr.decode()[-300:]}
        out = [list(bytes.fromhex(l)) for l in r.stdout.decode().split()]
        recs = []
        for n, o in zip(cuts, out):
            recs.append({"w": w, "c": list(it.to_bytes(4, "big")), "salt": list(salt), "index": list((skip // w + 1).to_bytes(4, "big")),
                         "offset": skip % w, "out": o, "run": [str(x) for x in (w, it, i, n)]})
            if len(o) != n:
                return {"run": [w, it, i, cuts], "lengths": [len(x) for x in out]}
            skip += n
        return recs
    recs = []
    for x in parallel([lambda r=r: one(*r) for r in runs]):
        if isinstance(x, dict):
            c.violation("PBKDF2 over a function of one addition: a run ended badly", x)
            return
        recs += x
    c.rng.shuffle(recs)
    p = c.path("steps.records")
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    r = tlc(c, "StepsTrace", env={"RECORDS": p})
    if r.ok and r.distinct == len(recs) + 1:
        c.add(r.distinct, r.generated, len(runs))
        c.note(iterations_past_2_to_31=sum(x[1] >= 2 ** 31 for x in runs), indices_past_2_to_31=sum(x[2] >= 2 ** 31 - 9 for x in runs))
    elif r.deadlock:
        bad = recs[refused_at(r) - 1]
        c.violation("PBKDF2 over a function of one addition: output differs (width, iterations, block, length: %s)" % bad["run"], bad)
    else:
        raise Broken("StepsTrace: %s" % (r.error or r.out)[-2000:])


def histories(c, exe):
    """Random histories of set up and derivation."""
    w = World()
    plans = []
    for alg in HASHES:
        b, D = BLOCK[alg], DIGEST[alg]
        m = w.stream(pattern(c.rng, 6 * b))
        for kind, name, _ in types.pbkdf_types(alg):
            pro = Session().new(1, kind, name, alg)
            al = Session()
            for n, it in [((0, 0), 1), ((D, 0), 2), ((b + 1, b), 1), ((5, b - 12), 3), ((b, 1), 1)]:
                al.pbk(1, *[(m, c.rng.randrange(3 * b), x, place(c.rng)) for x in n], it)
            for n in (0, 1, D - 1, D, D + 1, 2 * D + 3):
                al.der(1, n, place(c.rng))
            plans.append((alg, pro, al))
    behaviours(c, exe, w, plans, "histories", 7, 20 if c.quick else 300)
