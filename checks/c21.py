"""C21: options change only what they name."""
from mv.core import *
from mv.plans import *
from mv.constant import constant
from mv import types
from checks.c10 import machines, suits

SW = {"sha_1_160": "hash_sha_1_160_impl_sw", "sha_2_224": "hash_sha_2_256_impl_sw", "sha_2_256": "hash_sha_2_256_impl_sw",
      "sha_2_384": "hash_sha_2_512_impl_sw", "sha_2_512": "hash_sha_2_512_impl_sw", "sha_2_512_224": "hash_sha_2_512_impl_sw",
      "sha_2_512_256": "hash_sha_2_512_impl_sw", "chacha_20": "cipher_chacha_impl_sw_ietf"}
HW = {"sha_1_160": {"hw_x86_64_ni": "hash_sha_1_160_impl_hw_x86_64_ni"}, "sha_2_224": {"hw_x86_64_ni": "hash_sha_2_256_impl_hw_x86_64_ni"},
      "sha_2_256": {"hw_x86_64_ni": "hash_sha_2_256_impl_hw_x86_64_ni"},
      "chacha_20": {"hw_x86_64_ssse_3": "cipher_chacha_impl_hw_x86_64_ssse_3_ietf", "hw_x86_64_avx_2": "cipher_chacha_impl_hw_x86_64_avx_2_ietf"}}
DETAIL = "milo::primitive::detail::"
OPT = "milo::option::"


def backends(alg):
    """The backends of an algorithm that this machine can run: name -> class."""
    return dict({"sw": SW[alg]}, **{b: t for b, t in HW.get(alg, {}).items() if types.usable("_" + b)})


def opt(name, impl):
    return "%simpl_%s<%s%s>" % (OPT, name, DETAIL, impl)


def size(n):
    return "%sdigest_size<%d>" % (OPT, n)


def choices(r, alg, some=0.7):
    """Options about backends."""
    l = []
    bs = list(backends(alg).values())
    if r.random() < some:
        l += [opt(x, r.choice(bs)) for x in r.choice((("runtime",), ("enforce",), ("runtime", "enforce")))]
    if r.random() < 0.3:
        l.append(opt("cpltime", SW[alg]))
    return l


class T:
    """A type with options: what it is, and which function it is to be."""

    def __init__(self, kind, cpp, alg, hd=None, md=None):
        self.kind, self.cpp, self.alg = kind, cpp, alg
        self.hd = DIGEST[alg] if hd is None else hd
        self.md = self.hd if md is None else md


def a_hash(r, alg, n=None):
    o = choices(r, alg)
    if n:
        o.append(size(n))
    r.shuffle(o)
    return T("hash", "hash::%s<%s>" % (alg, ", ".join(o)), alg, n)


def a_mac(r, alg, n=None, md=None):
    h = a_hash(r, alg, n)
    # (Options of a backend mean nothing to a MAC; the digest size is its own.)
    o = ([size(md)] if md else []) + (choices(r, alg, 0.2) if md else [])
    r.shuffle(o)
    return T("mac", "mac::hmac<%s>" % ", ".join([h.cpp] + o), alg, h.hd, md or h.hd)


def over(kind, mac):
    return T(kind, "kdf::%s<%s>" % ({"hkdf": "hkdf", "pbkdf": "pbkdf_2"}[kind], mac.cpp), mac.alg, mac.hd, mac.md)


def a_size(r, most):
    n = r.choice([1, 2, 3, 4, 5, 8, most - 1, most, most - 4, r.randrange(1, most + 1), r.randrange(1, most + 1)])
    return min(max(n, 1), most)


def some_types(c, n):
    """n kinds of every primitive."""
    r = c.rng
    out = []
    for alg in HASHES:
        D = DIGEST[alg]
        for i in range(n):
            out.append(a_hash(r, alg, a_size(r, D) if i or r.random() < 0.7 else None))
        for i in range(n):
            h = a_size(r, D) if r.random() < 0.8 else None
            m = a_size(r, h or D) if r.random() < 0.7 else None
            out.append(a_mac(r, alg, h, m))
    for alg in r.sample(HASHES, 3 if n == 1 else 7):
        D = DIGEST[alg]
        for kind in ("hkdf", "pbkdf"):
            for i in range(n):
                h = a_size(r, D) if r.random() < 0.8 else None
                out.append(over(kind, a_mac(r, alg, h, a_size(r, h or D) if r.random() < 0.8 else None)))
    for i in range(2 * n):
        s = a_size(r, 16)
        out.append(T("mac", "mac::poly_1305<%s>" % size(s), "poly_1305", s))
    for i in range(2 * n):
        o = choices(r, "chacha_20", 1)
        out.append(T("cipher", "cipher::chacha_20<%s>" % ", ".join(o), "chacha_20"))
        o = choices(r, "chacha_20", 1)
        x = "%saead_chacha_20_poly_1305<milo::primitive::cipher::chacha_20<%s>, milo::primitive::mac::poly_1305<>>" % ("detail::", ", ".join(o))
        out.append(T("aead", x, "chacha_20_poly_1305"))
    return named(out)


def named(ts):
    for i, t in enumerate(ts):
        t.cpp = t.cpp.replace("mac::hmac<hash::", "mac::hmac<milo::primitive::hash::").replace("<mac::", "<milo::primitive::mac::")
        t.name = "t%d" % i
    return ts


def triples(ts):
    return [(t.kind, t.name, t.cpp) for t in ts]


def start(t, s, m, r, slot=1):
    """Set an object up."""
    b = BLOCK.get(t.alg, 64)
    key = (m, r.randrange(100), r.choice([0, 1, 16, 31, 32, 33, b - 1, b, b + 1, 2 * b]))
    if t.kind == "hash":
        if r.random() < 0.5:
            s.rst(slot)
    elif t.kind == "mac":
        s.key(slot, key)
    elif t.kind == "hkdf":
        s.hkdf(slot, key, (m, r.randrange(100), r.choice([0, 1, t.md, b, b + 1])), (m, 7, r.randrange(20)))
    elif t.kind == "pbkdf":
        s.pbk(slot, key, (m, r.randrange(100), r.randrange(40)), r.choice([1, 1, 2, 3]))
    else:
        s.pair({"cipher": "cip", "aead": "aead"}[t.kind], slot, (m, r.randrange(100), 32), (m, r.randrange(100), 16 if t.kind == "cipher" else 12))


def plan(c, ts, n, ops=True):
    """n sessions for every type."""
    w = World()
    r = c.rng
    m = w.stream(r.randbytes(700))
    ss = []
    for t in ts:
        b = BLOCK.get(t.alg, 64)
        for i in range(n):
            s = Session(group=len(ss) % (4 * JOBS))
            s.cost = 30
            s.new(1, t.kind, t.name, t.alg, t.hd, t.md).siz(1)
            start(t, s, m, r)
            copied = False
            for j in range(2):
                k = r.choice([0, 1, b - 9, b - 8, b - 1, b, b + 1, r.randrange(3 * b)])
                x = (m, r.randrange(100), k)
                if t.kind in ("hash", "mac"):
                    s.upd(1, x)
                    if not copied and r.random() < 0.4:
                        s.cpy(2, 1)
                        s.upd(2, (m, 0, r.randrange(30)))
                        copied = True
                elif t.kind in ("hkdf", "pbkdf"):
                    s.der(1, r.choice([0, 1, t.md - 1, t.md, t.md + 1, r.randrange(3 * t.md)]))
                    if not copied and r.random() < 0.4:
                        s.cpy(2, 1)
                        copied = True
                else:
                    if t.kind == "aead" and j == 0:
                        s.aad(1, (m, 3, r.randrange(40)))
                    s.crypt("enc" if r.random() < 0.5 else "dec", 1, x)
            for o in (1, 2) if copied else (1,):
                if t.kind in ("hash", "mac"):
                    for q in range(2):
                        s.digd(o, t.md, r.randrange(5))
                    s.dig(o, r.choice([0, 1, t.md - 1, t.md, t.md + 1, 64, r.randrange(70)]))
                elif t.kind in ("hkdf", "pbkdf"):
                    s.der(o, r.choice([1, t.md, t.md + 1, 2 * t.md + 1]))
                elif t.kind == "aead":
                    s.dig(o, 16).ver(o, (m, 0, 16))
            if t.kind == "hkdf" and 255 * t.md < 1400 and i == 0:
                # To the end of what there is.
                start(t, s, m, r)
                s.der(1, 255 * t.md - 3).der(1, 3)
            ss.append(s)
    return w, ss


def check(c):
    # Sizes and backends in combination: against the specification of the shortened functions.
    results(c)
    # Which backend options select, on any machine.
    selection(c)
    c.assumptions += ["Digest sizes from 1 to that of the algorithm (of the hash, for HMAC); options of user-defined backends are not considered.",
                      "Types with options are sampled from their combinations; every digest size of every algorithm in the thorough tier."]


def results(c):
    lanes = 6
    builds = []
    ts = some_types(c, 1 if c.quick else 4)
    if not c.quick:
        # Every size of every algorithm.
        ts += [a_hash(c.rng, a, n) for a in HASHES for n in range(1, DIGEST[a] + 1)]
        ts += [T("mac", "mac::poly_1305<%s>" % size(n), "poly_1305", n) for n in range(1, 17)]
        ts += [a_mac(c.rng, a, n, c.rng.randrange(1, n + 1)) for a in HASHES for n in range(1, DIGEST[a] + 1, 3)]
        named(ts)
    part = [ts[i::lanes] for i in range(lanes)]
    # (One of the programs is without assembly.)
    builds = [lambda i=i: build_interp(c, "interp%d" % i, triples(part[i]), "-O1") for i in range(lanes - 1)]
    builds.append(lambda: build_interp(c, "plain", triples(portable(part[-1])), "-O1", ["-UMILO_INTERNAL_ASM", "-DPLAIN"], objs=[]))
    exes = parallel(builds)
    rec = []
    w = World()
    worlds = []
    for i in range(lanes):
        w, ss = plan(c, part[i], 3 if c.quick else 6)
        worlds.append((exes[i], w, ss))
    parallel([lambda i=i, e=e, w=w, ss=ss: conform(c, e, w, ss, "lane%d" % i, shards=2 if c.quick else 3, parts=2)
              for i, (e, w, ss) in enumerate(worlds)])
    # At compile time.
    ct = [t for t in ts if not t.cpp.startswith("detail")]
    ct = c.rng.sample(ct, min(len(ct), 16 if c.quick else 80))
    w, ss = plan(c, ct, 1 if c.quick else 2)
    constant(c, w, triples(ct), ss, "constants")
    c.note(types=len(ts), types_in_constants=len(ct))


def portable(ts):
    """Without assembly there are no accelerated backends to name with force."""
    for t in ts:
        t.cpp = re.sub(r"impl_enforce<milo::primitive::detail::cipher\w+>", "impl_enforce<%s%s>" % (DETAIL, SW["chacha_20"]), t.cpp)
        t.cpp = re.sub(r"impl_enforce<milo::primitive::detail::hash_(sha_1_160|sha_2_256)_impl_hw_x86_64_ni>",
                       r"impl_enforce<milo::primitive::detail::hash_\1_impl_sw>", t.cpp)
    return ts


def selection(c):
    ts = []
    r = c.rng
    for alg in list(HW) + ["sha_2_384"]:
        bs = backends(alg)
        for enf in [""] + list(bs):
            for pref in [""] + list(bs):
                o = ([opt("enforce", bs[enf])] if enf else []) + ([opt("runtime", bs[pref])] if pref else [])
                n = None
                if alg != "chacha_20" and r.random() < 0.5:
                    n = a_size(r, DIGEST[alg])
                    o.append(size(n))
                if r.random() < 0.3:
                    o.append(opt("cpltime", SW[alg]))
                r.shuffle(o)
                if alg == "chacha_20":
                    x = T("cipher", "cipher::chacha_20<%s>" % ", ".join(o), alg)
                else:
                    x = T("hash", "hash::%s<%s>" % (alg, ", ".join(o)), alg, n)
                use = [x]
                if alg != "chacha_20" and r.random() < 0.4:
                    m = T("mac", "mac::hmac<%s>" % x.cpp, alg, x.hd)
                    use.append(m)
                for t in use:
                    t.enf, t.pref = enf, pref
                    ts.append(t)
    named(ts)
    exe, sites, kinds = build_elsewhere(c, "elsewhere", triples(ts), "-O1")
    w = World()
    m = w.stream(r.randbytes(2000))
    k = w.stream(r.randbytes(48))
    w.use_ks("cipher", (k, 0, 32), (k, 32, 16), 2000)
    for a in HASHES:
        w.use_hash(a, m, 700, lazy=True)
    ss = []
    for t in ts:
        s = Session(group=t.alg)
        s.t = t
        s.new(1, t.kind, t.name, t.alg, t.hd, t.md)
        if t.kind == "cipher":
            s.pair("cip", 1, (k, 0, 32), (k, 32, 16)).crypt("enc", 1, (m, 0, 37)).crypt("enc", 1, (m, 37, 1600)).crypt("dec", 1, (m, 0, 1))
        else:
            if t.kind == "mac":
                s.key(1, (m, 0, 32))
            s.upd(1, (m, 0, 400)).dig(1, 64)
        ss.append(s)
    ms = machines(c)
    if c.quick:
        ms = ms[:1] + r.sample(ms[1:], min(len(ms) - 1, 60))
    most = drive(c, exe, w, ss, "most", env=ms[0].env(sites))
    needs, records = {}, []
    for s, evs in most:
        if not plain(evs[-1]):
            raise Violation("a backend fails on a machine with all extensions", {"type": s.t.cpp, "events": evs})
        if s.t.enf and s.t.kind != "mac":
            records.append(dict(ms[0].json(), kind="named", needs=[], backend=s.t.enf, executed=evs[-1]["cls"], what=s.t.cpp))
            if s.t.enf != "sw":
                needs.setdefault(s.t.alg, {})[s.t.enf] = evs[-1]["cls"]
    named_ok = len(records)
    all_rec = list(most)

    def lane(j):
        return [(i, drive(c, exe, w, ss, "sel%d" % j, env=ms[i].env(sites), keep=True, timeout=60)) for i in range(j, len(ms), JOBS)]
    for i, rec in [x for l in parallel([lambda j=j: lane(j) for j in range(JOBS)]) for x in l]:
        for s, evs in rec:
            if not plain(evs[-1]):
                rr = drive(c, exe, w, [s], "again", env=ms[i].env(sites), timeout=60)
                if not plain(rr[0][1][-1]):
                    raise Violation("%s fails on a machine" % s.t.cpp, {"machine": ms[i].json(), "events": evs, "environment": ms[i].env("SITES")["MILO_CPU"]})
                continue
            records.append(dict(ms[i].json(), kind="option", needs=needs.get(s.t.alg, {}), enforced=s.t.enf, preferred=s.t.pref,
                                executed=evs[-1]["cls"], what=s.t.cpp))
            all_rec.append((s, evs))
    suits(c, records, " or is not the backend that was asked for")
    c.note(machines=len(ms), runs=len(records) - named_ok)
    seen, distinct = set(), []
    for s, evs in all_rec:
        evs = [{a: b for a, b in e.items() if a != "cls"} for e in evs]
        key = json.dumps(evs)
        if key not in seen:
            seen.add(key)
            distinct.append((s, evs))
    for rj in validate(c, w, distinct, "selected"):
        d = describe(rj)
        c.violation("a result of a selected backend: %s" % json.dumps(d["call"])[:300], d)
