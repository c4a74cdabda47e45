"""C16: destroyed objects leave no secrets in their memory."""
from mv.core import *
from mv.plans import *
from mv import types
from checks.c15 import ALL, alphabet, alg_of

KEPT = 40       # strings of the program: above the streams


def few(c):
    """Every kind of destructor, over every family of hashes; some others."""
    names = ["sha_1_160", "sha_2_256", "sha_2_512", "hmac_sha_1_160", "hmac_sha_2_256", "hmac_sha_2_384", "poly_1305",
             "hkdf_sha_1_160", "hkdf_sha_2_384", "pbkdf_sha_2_256", "pbkdf_sha_2_512_256", "chacha_20", "aead"]
    ts = ALL()
    return [t for t in ts if not c.quick or t[1] in names] + ([x for x in c.rng.sample(ts, 4) if x[1] not in names] if c.quick else [])


def fills(c, m, kind, name, alg):
    """One object in every state of its buffers."""
    r = c.rng
    b, D = BLOCK.get(alg, 64), DIGEST[alg]
    k, v = (m, 1, 32), (m, 40, 12 if kind == "aead" else 16)
    ss = []
    sizes = range(0, 2 * b + 2) if not c.quick else sorted({0, 1, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1} | set(r.sample(range(2 * b), 6)))
    for n in sizes:
        if n < 0:
            continue
        for done in (False, True):
            s = Session().new(1, kind, name, alg)
            if kind == "hash":
                s.upd(1, (m, 0, n))
            elif kind == "mac":
                s.key(1, (m, 3, r.choice([n, 32, b, b + 1]))).upd(1, (m, 0, n))
            elif kind == "hkdf":
                s.hkdf(1, (m, 2, r.choice([n, 40])), (m, 9, r.choice([n, 20])), (m, 3, 9)).der(1, n)
            elif kind == "pbkdf":
                s.pbk(1, (m, 2, r.choice([n, 40])), (m, 9, r.choice([n, 20])), 2).der(1, n)
            elif kind == "cipher":
                s.pair("cip", 1, k, v).crypt("enc", 1, (m, 0, n))
            else:
                s.pair("aead", 1, k, v).aad(1, (m, 0, r.choice([n, 5]))).crypt("enc", 1, (m, 0, n))
            if done:
                if kind in ("hash", "mac"):
                    s.dig(1, r.choice([0, D]))
                elif kind in ("hkdf", "pbkdf"):
                    s.der(1, D)
                elif kind == "cipher":
                    s.crypt("dec", 1, (m, 0, 1))
                else:
                    # An accepted tag, or one that hardly is.
                    s.dig(1, 16, st=KEPT)
                    s.ver(1, (KEPT, 0, 16) if r.random() < 0.6 else (m, 0, 16))
            if r.random() < 0.3:
                s.mov(2, 1).drop(2)
            elif r.random() < 0.3:
                s.cpy(2, 1).drop(2)
            s.drop(1)
            ss.append(s)
    # Never set up, and set up only.
    ss.append(Session().new(1, kind, name, alg).drop(1))
    s = Session().new(1, kind, name, alg)
    {"hash": lambda: s.rst(1), "mac": lambda: s.key(1, k), "hkdf": lambda: s.hkdf(1, k, v, (m, 0, 9)), "pbkdf": lambda: s.pbk(1, k, v, 1),
     "cipher": lambda: s.pair("cip", 1, k, v), "aead": lambda: s.pair("aead", 1, k, v)}[kind]()
    ss.append(s.drop(1))
    return ss


def lives(c, w, tys):
    out = []
    plans = []
    for kind, name, cpp in tys:
        alg = alg_of(kind, name)
        plans.append(alphabet(c, w, kind, name, alg, wide=True))
    for s in sessions_of(c, w, plans, "lives", 8, 8 if c.quick else 200):
        there = set()
        for e in s.events[1:]:
            if e["op"] == "new":
                there.add(e["o"])
            elif e["op"] in ("cpy", "mov"):
                there.add(e["d"])
            elif e["op"] == "drop":
                there.discard(e["o"])
        for o in sorted(there):
            s.drop(o)
        out.append(s)
    for i, (kind, name, cpp) in enumerate(tys):
        out += fills(c, i + 1, kind, name, alg_of(kind, name))
    return out


def contents(c, n):
    """What secrets may be: (streams of one length each)."""
    r = c.rng
    return [lambda n: r.randbytes(n), lambda n: bytes(n), lambda n: b"\xff" * n, lambda n: pattern(r, n)] + \
        ([lambda n: r.randbytes(n), lambda n: pattern(r, n)] if n > 4 else [])


def run(c, exe, program, w, sets, lives, tag):
    """Records of all destructions: those that are alike next to each other."""
    per = len(w.streams)
    sp, cp = c.path(tag + ".streams"), c.path(tag + ".script")
    with open(sp, "wb") as f:
        for l in sets:
            for s in l:
                f.write(len(s).to_bytes(4, "little") + s)
    lines = []
    with open(cp, "w") as f:
        for i, s in enumerate(lives):
            for v in range(len(sets)):
                f.write("\n".join(s.lines[:1] + ["V %d %d" % (v, per)] + s.lines[1:]) + "\n")
    p = sh([exe, sp, cp], timeout=200)
    out = p.stdout.decode("utf8", "replace").split("\n")[:-1]
    k = 0
    recs = []
    for s in lives:
        at = {}
        for v in range(len(sets)):
            k += 1
            for j, e in enumerate([None] + s.events[1:]):
                if k >= len(out) or out[k].startswith("!crash"):
                    return recs, {"call": e, "life": s.events[1:], "status": p.returncode, "out": out[-1:]}
                if e is not None and e["op"] == "drop":
                    at.setdefault(j, []).append(out[k])
                k += 1
        for j, l in at.items():
            typ = {e["o"]: x.split()[2] for x, e in zip(s.lines[1:], s.events[1:]) if e["op"] == "new"}
            for v, x in enumerate(l):
                recs.append({"program": program, "what": sorted(set(typ.values())), "calls": s.events[1:j + 1], "memory": x, "first": v == 0})
    return recs, None


def left_over(c, recs, tag):
    """The position of the first refused destruction, or None."""
    p = c.path(tag + ".records")
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    r = tlc(c, "ResidueTrace", env={"RECORDS": p})
    if r.ok:
        if r.distinct != len(recs) + 1:
            raise Broken("ResidueTrace: %d states for %d records" % (r.distinct, len(recs)))
        os.remove(p)
        c.add(r.distinct, r.generated, sum(x["first"] for x in recs))
        return None
    if not r.deadlock:
        raise Broken("ResidueTrace: %s" % r.error[-2000:])
    return refused_at(r) - 1


def check(c):
    design(c, "ResidueDesign")
    r = tlc(c, "ResidueDesign", "ResidueKept.cfg", cwd=os.path.join(SPEC, "design"))
    if not r.violated:
        raise Broken("ResidueKept: %s" % r.out[-500:])
    tys = few(c)
    opts = ["-O0", "-O2", "-O3"] if c.quick else ["-O0", "-O1", "-O2", "-O3", "-Os", "-Ofast"]
    asm_objs(c)
    half = [tys[::2], tys[1::2]]
    work = [(o, h) for o in opts for h in range(2)]
    exes = parallel([lambda o=o, h=h: build_interp(c, "residue%s_%d" % (o, h), half[h], o, ["-DRESIDUE", "-w"]) for o, h in work])
    plans = []
    for h in range(2):
        w = World()
        ss = lives(c, w, half[h])
        gen = contents(c, 4 if c.quick else 6)
        sets = [[g(len(s)) for s in w.streams] for g in gen]
        plans.append((w, sets, ss))

    def one(i):
        (o, h), exe = work[i], exes[i]
        w, sets, ss = plans[h]
        tag = "residue%s_%d" % (o, h)
        for attempt in (1, 2):
            recs, end = run(c, exe, o, w, sets, ss, tag)
            bad = left_over(c, recs, tag) if recs and end is None else None
            if end is None and bad is None:
                return recs
        if end is not None:
            c.violation("%s: a life ends early: %s" % (o, json.dumps(end)[:300]), end)
            return []
        r = recs[bad]
        f = bad
        while not recs[f]["first"]:
            f -= 1
        a, b = recs[f]["memory"].split()[1], r["memory"].split()[1]
        where = [k // 2 for k in range(0, min(len(a), len(b)), 2) if a[k:k + 2] != b[k:k + 2]]
        c.violation("%s, %s: memory of a destroyed object depends on secrets: bytes %s of %s" % (r["what"], o, where[:20], r["memory"].split()[0]),
                    {"calls": r["calls"], "memory": [a, b], "bytes": where, "program": o})
        return []
    n = k = 0
    for recs in parallel([lambda i=i: one(i) for i in range(len(work))]):
        n += len(recs)
        k += sum(x["first"] for x in recs)
        if recs:
            x = recs[len(recs) // 2]
            c.sample({"program": x["program"], "types": x["what"], "calls": [e["op"] for e in x["calls"]], "memory": x["memory"][:80]})
    c.note(destructions=n, lives=k, optimizations=opts, types=len(tys))
    c.assumptions += ["Programs of this compiler; objects on the heap, their memory observed when it is given back.",
                      "Secrets: random, all zeros, all ones, and patterns."]
