"""C10: the default backend suits the CPU and the operating system."""
import itertools

from mv.core import *
from mv.plans import *
from mv import types

L1C = {"sse3": 0, "pclmul": 1, "ssse3": 9, "fma": 12, "sse4_1": 19, "sse4_2": 20, "movbe": 22, "popcnt": 23, "aes": 25,
       "osxsave": 27, "avx": 28}
L7B = {"bmi1": 3, "avx2": 5, "bmi2": 8, "avx512": 16, "adx": 19, "sha": 29}
MATTER1 = ["sse3", "ssse3", "sse4_1", "sse4_2", "osxsave", "avx"]
MATTER7 = ["avx2", "sha"]
FLAG = {"sse3": "pni", "ssse3": "ssse3", "sse4_1": "sse4_1", "sse4_2": "sse4_2", "avx": "avx", "avx2": "avx2", "sha": "sha_ni"}


class Machine:
    def __init__(self, l1, l7, xcr0, most, other, noise):
        # Other bits of the same registers: all or none.  Extensions that this CPU lacks are not offered.
        a = {L1C[x] for x in l1} | ({b for b in range(32) if b not in {L1C[x] for x in MATTER1}} if other else set())
        b = {L7B[x] for x in l7} | ({b for b in range(32) if b not in {L7B[x] for x in MATTER7}} if other else set())
        self.l1c, self.l7b, self.max, self.xcr0, self.noise = sorted(a), sorted(b), most, xcr0, noise
        self.l1d = 0xffffffff if other else 1 << 25 | 1 << 26

    def env(self, sites):
        n = lambda l: sum(1 << i for i in l)
        return {"MILO_SITES": sites, "MILO_CPU": "%x %x %x %x %x %x" % (
            self.max, n(self.l1c), self.l1d, n(self.l7b), self.xcr0, self.noise)}

    def json(self):
        return {"max": self.max, "l1c": self.l1c, "l7b": self.l7b,
                "xcr0": [i for i in range(32) if self.xcr0 >> i & 1]}


def machines(c):
    have = types.cpu_flags()
    m1 = [x for x in MATTER1 if x == "osxsave" or FLAG[x] in have]
    m7 = [x for x in MATTER7 if FLAG[x] in have]
    # Everything there is first.
    out = [Machine(m1, m7, 7, 13, False, 0)]
    for l in itertools.product((False, True), repeat=len(m1) + len(m7)):
        l1 = [x for x, y in zip(m1, l) if y]
        l7 = [x for x, y in zip(m7, l[len(m1):]) if y]
        if c.quick:
            for q in range(2):
                out.append(Machine(l1, l7, c.rng.choice([1, 3, 5, 7, 7, 7, 0xe7]) if q else 7, c.rng.choice([1, 6, 7, 13]) if q else 7,
                                   q and c.rng.random() < 0.4, c.rng.choice([0, 0xffffffff, 0x20000020])))
        else:
            for x in (0, 1, 2, 3, 5, 6, 7, 0xe7):
                for most in (1, 6, 7, 13):
                    for other in (False, True):
                        out.append(Machine(l1, l7, x, most, other, 0xffffffff if other else 0x20000020))
    # A processor with CPUID leaf 0 only.
    out.append(Machine([], [], 7, 0, False, 0xffffffff))
    return out


def sessions(c, w, tys, m, k, v):
    """One session per primitive: calls that reach whatever a backend may do."""
    out = []
    for kind, name, _ in tys:
        base = name.split("_sw")[0].split("_hw")[0]
        alg = next((a for a in sorted(HASHES, key=len, reverse=True) if a in base), base)
        if base == "aead":
            alg = "chacha_20_poly_1305"
        s = Session(group=alg)
        s.name, s.kind, s.base = name, kind, base
        s.new(1, kind, name, alg)
        if kind == "hash":
            s.upd(1, (m, 0, 700)).dig(1, 64)
        elif kind == "mac":
            s.key(1, (m, 0, 32)).upd(1, (m, 0, 400)).dig(1, 64)
        elif kind == "hkdf":
            s.hkdf(1, (m, 0, 20), (m, 5, 20), (m, 0, 9)).der(1, 40)
        elif kind == "pbkdf":
            s.pbk(1, (m, 0, 20), (m, 5, 20), 2).der(1, 40)
        else:
            s.pair("cip" if kind == "cipher" else "aead", 1, k, v[:2] + (16 if kind == "cipher" else 12,))
            s.crypt("enc", 1, (m, 0, 37)).crypt("enc", 1, (m, 37, 1600)).crypt("dec", 1, (m, 0, 1))
            if kind == "aead":
                s.dig(1, 16)
        out.append(s)
    return out


def check(c):
    design(c, "DispatchDesign")
    tys = [t for a in HASHES for t in types.hash_types(a)]
    for a in ("sha_1_160", "sha_2_224", "sha_2_256"):
        tys += types.hmac_types(a) + types.hkdf_types(a) + types.pbkdf_types(a)
    tys += types.poly_types() + types.cipher_types() + types.aead_types()
    exe, sites, kinds = build_elsewhere(c, "elsewhere", tys)
    if not kinds.get("cpuid"):
        raise Broken("no CPUID in the program")
    c.note(instructions=kinds)

    w = World()
    m = w.stream(c.rng.randbytes(2000))
    k = (w.stream(c.rng.randbytes(32)), 0, 32)
    v = (w.stream(c.rng.randbytes(16)), 0, 16)
    w.use_ks("cipher", k, v, 2000)
    w.use_ks("aead", k, v[:2] + (12,), 2000)
    for a in HASHES:
        w.use_hash(a, m, 700, lazy=True)

    ms = machines(c)
    # What the named backends execute, on the machine with everything.
    named = sessions(c, w, [t for t in tys if "_hw" in t[1] or "_sw" in t[1]], m, k, v)
    defaults = sessions(c, w, [t for t in tys if not ("_hw" in t[1] or "_sw" in t[1])], m, k, v)
    rec = drive(c, exe, w, named, "named", env=ms[0].env(sites))
    needs, soft = {}, set()
    for s, evs in rec:
        if not plain(evs[-1]):
            raise Violation("a named backend fails on a machine with all extensions", {"events": evs})
        if "_hw" in s.name:
            needs.setdefault(s.base, []).append(evs[-1]["cls"])
        elif evs[-1]["cls"]:
            soft.add(s.name)
    if "chacha_20" in needs:
        needs["aead"] = needs["chacha_20"]
    c.note(needs=needs)
    all_rec = list(rec)

    def run(i):
        return drive(c, exe, w, defaults, "run%d" % (i % JOBS), env=ms[i].env(sites), keep=True, timeout=60)

    def lane(j):
        return [(i, run(i)) for i in range(j, len(ms), JOBS)]
    records = []
    for i, rec in sorted([x for l in parallel([lambda j=j: lane(j) for j in range(JOBS)]) for x in l], key=lambda x: x[0]):
        for s, evs in rec:
            if not plain(evs[-1]):
                rr = [e for t, e in drive(c, exe, w, [s], "again", env=ms[i].env(sites), timeout=60)]
                if not plain(rr[0][-1]):
                    raise Violation("%s fails on a machine: %s" % (s.name, evs[-1].get("what")),
                                    {"machine": ms[i].json(), "events": evs, "environment": ms[i].env("SITES")["MILO_CPU"]})
                continue
            records.append(dict(ms[i].json(), kind="default", needs=needs.get(s.base, []), executed=evs[-1]["cls"], what=s.name))
            all_rec.append((s, evs))
    c.note(machines=len(ms), runs=len(records), machines_with_acceleration=len({json.dumps(r["l1c"] + r["l7b"]) for r in records if r["executed"]}))
    suits(c, records)

    # The results, each distinct recording once.
    seen, distinct = set(), []
    for s, evs in all_rec:
        evs = [{a: b for a, b in e.items() if a != "cls"} for e in evs]
        key = json.dumps(evs)
        if key not in seen:
            seen.add(key)
            distinct.append((s, evs))
    for r in validate(c, w, distinct, "results"):
        d = describe(r)
        c.violation("a result on some machine: %s" % json.dumps(d["call"])[:300], d)
    c.assumptions += ["Extensions that the sandbox's own CPU lacks cannot be executed; it has %s." %
                      ", ".join(x for x in FLAG if FLAG[x] in types.cpu_flags()),
                      "What a backend executes is found by running it on the machine with all extensions."]
    c.sample({"machine": ms[1].json(), "executed": records[0]["executed"]})


def suits(c, records, why=""):
    parts = 8
    lists = [records[i::parts] for i in range(parts)]

    def one(i):
        p = c.path("records%d.json" % i)
        with open(p, "w") as f:
            for r in lists[i]:
                f.write(json.dumps(r) + "\n")
        return tlc(c, "DispatchTrace", env={"RECORDS": p})
    for i, r in enumerate(parallel([lambda i=i: one(i) for i in range(parts)])):
        if r.ok:
            if r.distinct != len(lists[i]) + 1:
                raise Broken("DispatchTrace: %d states for %d records" % (r.distinct, len(lists[i])))
            c.add(r.distinct, r.generated, len(lists[i]))
        elif r.deadlock:
            k = refused_at(r) - 1
            b = lists[i][k]
            c.violation("%s executed %s on a machine that does not suit it%s" % (b["what"], b["executed"] or "no extension", why), b)
        else:
            raise Broken("DispatchTrace: %s" % r.error[-2000:])
