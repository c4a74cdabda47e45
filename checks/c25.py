"""C25: the interface for tests, and generated test programs, accept what meets the vectors, and nothing else."""
import hashlib
import hmac

from mv.core import *

SCHEMES = ["hash", "mac", "kdf-hkdf", "kdf-pbkdf-2", "cipher-encrypt", "cipher-decrypt", "aead-encrypt", "aead-decrypt", "codec-encode",
           "codec-decode"]
INS = {"hash": ["message"], "mac": ["key", "message"], "kdf-hkdf": ["ikm", "salt", "info"], "kdf-pbkdf-2": ["ikm", "salt"],
       "cipher-encrypt": ["key", "iv", "plaintext"], "cipher-decrypt": ["key", "iv", "ciphertext"],
       "aead-encrypt": ["key", "iv", "aad", "plaintext"], "aead-decrypt": ["key", "iv", "aad", "ciphertext", "digest"],
       "codec-encode": ["from"], "codec-decode": ["from"]}
OUTS = {"hash": ["digest"], "mac": ["digest"], "kdf-hkdf": ["key"], "kdf-pbkdf-2": ["key"], "cipher-encrypt": ["ciphertext"],
        "cipher-decrypt": ["plaintext"], "aead-encrypt": ["ciphertext", "digest"], "aead-decrypt": ["plaintext"], "codec-encode": ["to"],
        "codec-decode": ["to"]}
TEXT = {"codec-encode": "to", "codec-decode": "from"}
DIFF = SCHEMES[:6]
SPACE = {"hash": "hash", "mac": "mac", "kdf-hkdf": "kdf", "kdf-pbkdf-2": "kdf", "cipher-encrypt": "cipher", "cipher-decrypt": "cipher"}
TOY = {"hash": "hash", "mac": "mac", "kdf-hkdf": "hkdf", "kdf-pbkdf-2": "pbkdf", "cipher-encrypt": "cipher", "cipher-decrypt": "cipher",
       "codec-encode": "codec", "codec-decode": "codec"}
REAL = {"hash": "hash_%s", "mac": "mac_hmac_%s", "kdf-hkdf": "kdf_hkdf_hmac_%s", "kdf-pbkdf-2": "kdf_pbkdf_2_hmac_%s",
        "cipher-encrypt": "cipher_chacha_20", "cipher-decrypt": "cipher_chacha_20", "aead-encrypt": "aead_chacha_20_poly_1305",
        "aead-decrypt": "aead_chacha_20_poly_1305", "codec-encode": "codec_%s", "codec-decode": "codec_%s"}
HL = {"sha_1_160": "sha1", "sha_2_224": "sha224", "sha_2_256": "sha256", "sha_2_384": "sha384", "sha_2_512": "sha512",
      "sha_2_512_224": "sha512_224", "sha_2_512_256": "sha512_256"}


# Vectors that are to be met, most of them: the specification decides which are.

def sums(s):
    a = b = 0
    for x in s:
        a = (a + x) % 256
        b = (b + a) % 256
    return bytes([len(s) % 256, a, b])


def chacha(key, iv, text):
    out = b""
    rot = lambda v, n: ((v << n) | (v >> (32 - n))) & 0xffffffff
    for k in range((len(text) + 63) // 64):
        le = lambda s: [int.from_bytes(s[i:i + 4], "little") for i in range(0, len(s), 4)]
        x = le(b"expand 32-byte k") + le(key) + le(iv)
        x[12] = (x[12] + k) & 0xffffffff
        y = list(x)
        for _ in range(10):
            for a, b, c, d in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
                for p, q, r, n in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                    y[p] = (y[p] + y[q]) & 0xffffffff
                    y[r] = rot(y[r] ^ y[p], n)
        ks = b"".join(((a + b) & 0xffffffff).to_bytes(4, "little") for a, b in zip(x, y))
        out += bytes(a ^ b for a, b in zip(text[64 * k:64 * k + 64], ks))
    return out


def poly(key, msg):
    key = (key + bytes(32))[:32]
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % (2**130 - 5)
    return ((a + int.from_bytes(key[16:], "little")) % 2**128).to_bytes(16, "little")


def aead(key, iv, aad, text):
    otk = chacha(key, bytes(4) + iv, bytes(32))
    ct = chacha(key, b"\1\0\0\0" + iv, text)
    pad = lambda s: s + bytes(-len(s) % 16)
    return ct, poly(otk, pad(aad) + pad(ct) + len(aad).to_bytes(8, "little") + len(ct).to_bytes(8, "little"))


def has(alg):
    return HL.get(alg) in hashlib.algorithms_available


def expected(scheme, alg, ins, n, size):
    """What the algorithm answers; a digest that Python has not is left to chance, and so not met."""
    if alg == "toy":
        s = scheme
        if s == "hash":
            return [sums(ins[0])]
        if s == "mac":
            return [sums(bytes([len(ins[0]) % 256]) + ins[0] + ins[1])]
        if s == "kdf-hkdf":
            a, b, c = map(sums, ins)
            return [bytes((a[i % 3] + 3 * b[i % 3] + 5 * c[i % 3] + i) % 256 for i in range(size))]
        if s == "kdf-pbkdf-2":
            a, b = map(sums, ins)
            return [bytes((a[i % 3] + 3 * b[i % 3] + n % 256 + i) % 256 for i in range(size))]
        if s.startswith("cipher"):
            st = [(ins[0][i % 4] + ins[1][i % 2] + i) % 256 for i in range(len(ins[2]))]
            return [bytes((x + (y if s == "cipher-encrypt" else -y)) % 256 for x, y in zip(ins[2], st))]
        if s == "codec-encode":
            return [b"".join(bytes([97 + x // 16, 97 + x % 16]) for x in ins[0])]
        t = ins[0]
        if len(t) % 2 or any(x < 97 or x > 112 for x in t):
            return [b""]
        return [bytes((t[i] - 97) * 16 + t[i + 1] - 97 for i in range(0, len(t), 2))]
    if scheme == "hash":
        return [hashlib.new(HL[alg], ins[0]).digest()]
    if scheme == "mac":
        return [poly(*ins) if alg == "poly_1305" else hmac.new(ins[0], ins[1], HL[alg]).digest()]
    if scheme == "kdf-hkdf":
        prk = hmac.new(ins[1] or bytes(1), ins[0], HL[alg]).digest()
        t, out, i = b"", b"", 1
        while len(out) < size:
            t = hmac.new(prk, t + ins[2] + bytes([i]), HL[alg]).digest()
            out, i = out + t, i + 1
        return [out[:size]]
    if scheme == "kdf-pbkdf-2":
        return [hashlib.pbkdf2_hmac(HL[alg], ins[0], ins[1], n, size) if size else b""]
    if scheme.startswith("cipher"):
        return [chacha(*ins)]
    if scheme == "aead-encrypt":
        return list(aead(*ins))
    if scheme == "aead-decrypt":
        return [chacha(ins[0], b"\1\0\0\0" + ins[1], ins[3])]
    import base64
    import binascii
    if scheme == "codec-encode":
        return [binascii.hexlify(ins[0]) if alg == "base_16" else base64.b64encode(ins[0])]
    try:
        t = ins[0].decode()
        return [binascii.unhexlify("0" * (len(t) % 2) + t) if alg == "base_16" else base64.b64decode(t, validate=True)]
    except ValueError:
        return [b""]


def algorithms(scheme):
    if scheme.startswith("cipher") or scheme.startswith("aead"):
        return ["chacha_20"]
    if scheme.startswith("codec"):
        return ["base_16", "base_64"]
    return [h for h in HASHES if has(h)] + (["poly_1305"] if scheme == "mac" else [])


def blob(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes([rng.choice([0, 255, 128, 65])]) * n
    return bytes(rng.randrange(256) for _ in range(n))


SIZES = [0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100]


def vector(rng, scheme, alg, i=1, size=None):
    """A vector that is met, as far as Python knows."""
    toy = alg == "toy"
    m = rng.choice(SIZES) if size is None else size
    n, want = 1, 0
    if scheme == "hash":
        ins = [blob(rng, m)]
    elif scheme == "mac":
        ins = [blob(rng, 32 if alg == "poly_1305" else rng.choice(SIZES)), blob(rng, m)]
    elif scheme == "kdf-hkdf":
        ins, want = [blob(rng, rng.choice(SIZES)) for _ in range(3)], m
    elif scheme == "kdf-pbkdf-2":
        ins, want, n = [blob(rng, rng.choice(SIZES)) for _ in range(2)], m, rng.choice([1, 2, 3, 100 if toy else 5])
    elif scheme.startswith("cipher"):
        ins = [blob(rng, 4 if toy else 32), blob(rng, 2 if toy else 16), blob(rng, m)]
    elif scheme == "aead-encrypt":
        ins = [blob(rng, 32), blob(rng, 12), blob(rng, rng.choice(SIZES)), blob(rng, m)]
    elif scheme == "aead-decrypt":
        a = [blob(rng, 32), blob(rng, 12), blob(rng, rng.choice(SIZES))]
        ct, tag = aead(*a, blob(rng, m))
        ins = a + [ct, tag]
    elif scheme == "codec-encode":
        ins = [blob(rng, m)]
    else:
        ins = [expected("codec-encode", alg, [blob(rng, m)], 1, 0)[0]]
    return {"id": i, "in": ins, "n": n, "out": expected(scheme, alg, ins, n, want)}


def flipped(rng, b, at=None):
    k = rng.randrange(len(b)) if at is None else at
    return b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]


HOSTILE = [b'"', b'\\', b'\\x41', b'a"b', b'%s', b'??/', b'\n', b'\t', b'\0', "\u00e9".encode(), b"ab\0", b'\\"', b"'", b"0" * 63 + b'"', b"\0" + b"1234"]


def spoilt(rng, scheme, v, kind=None):
    """The same vector with something else in it: not met, most of the time."""
    v = {"id": v["id"], "in": list(v["in"]), "n": v["n"], "out": list(v["out"])}
    j = rng.randrange(len(v["out"]))
    o = v["out"][j]
    kind = kind or rng.choice(["first", "last", "any", "short", "long", "zero", "empty", "input", "other", "input", "text"])
    if kind in ("first", "last", "any") and o:
        v["out"][j] = flipped(rng, o, {"first": 0, "last": len(o) - 1, "any": None}[kind])
    elif kind == "short" and o:
        v["out"][j] = o[:-1]
    elif kind == "long":
        v["out"][j] = o + bytes([rng.randrange(1, 256)])
    elif kind == "zero":
        v["out"][j] = o + b"\0"
    elif kind == "empty":
        v["out"][j] = b""
    elif kind == "other":
        v["out"][j] = blob(rng, len(o))
    elif kind == "text" and scheme in TEXT:
        if scheme == "codec-decode":
            v["in"][0] = v["in"][0] + rng.choice(HOSTILE)
        else:
            v["out"][0] = v["out"][0] + rng.choice(HOSTILE)
    else:
        i = rng.choice([i for i, x in enumerate(v["in"]) if x] or [0])
        if v["in"][i] and scheme != "codec-decode":
            v["in"][i] = flipped(rng, v["in"][i])
        elif v["in"][i]:
            k = rng.randrange(len(v["in"][i]))
            v["in"][i] = v["in"][i][:k] + bytes([rng.choice(b"!zZ+=q \x7f")]) + v["in"][i][k + 1:]
        else:
            v["in"][i] = b"x" if scheme == "codec-decode" else bytes(1)
        if scheme == "kdf-pbkdf-2" and rng.random() < 0.3:
            v["n"] += 1
    return v


FAULTS = {"hash": ["piece", "content"], "mac": ["piece", "content", "key"], "kdf-hkdf": ["size"], "kdf-pbkdf-2": ["size", "count"],
          "cipher-encrypt": ["piece"], "cipher-decrypt": ["piece"], "codec-encode": ["piece"], "codec-decode": ["piece"]}


def toy(fault="none", at=0):
    return {"algorithm": "toy", "fault": fault, "at": at}


def real(alg):
    return {"algorithm": alg, "fault": "none", "at": 0}


def faulty(rng, scheme, vs, where):
    """An implementation with a fault that the vectors show, the comparison, or neither."""
    f = rng.choice(FAULTS[scheme])
    back = 1000 if scheme == "cipher-decrypt" else 0
    if where == "vectors" and vs:
        v = rng.choice(vs)
        at = {"piece": len(v["in"][-1]) + back, "key": len(v["in"][0]), "size": len(v["out"][0]), "count": v["n"], "content": 0}[f]
        return toy(f, at)
    if where == "comparison" and scheme in DIFF:
        return toy(f, {"piece": rng.choice([1, 64 if back or scheme.startswith("cipher") else 512]) + rng.choice([0, 1000] if scheme.startswith("cipher") else [0]),
                       "key": 0, "size": rng.choice([1, 2, 50, 90, 127, 127 if scheme != "kdf-hkdf" else 255]), "count": rng.choice([1, 64, 127]),
                       "content": 0}[f])
    g = "piece" if f == "content" else f
    return toy(g, {"piece": 700, "key": 900, "size": 800, "count": 5000}[g] + (back if g == "piece" else 0))


def cxx(scheme, impl):
    if impl["algorithm"] == "toy":
        return "toy::%s<toy::%s, %d>" % (TOY[scheme], impl["fault"], impl["at"])
    t = REAL[scheme]
    if impl["algorithm"] == "poly_1305":
        t = "mac_poly_1305"
    return "milo::primitive::" + (t % impl["algorithm"] if "%" in t else t)


def record(v):
    a = v.get("answer") or {"ok": False, "out": []}
    return {"id": v["id"], "in": [list(x) for x in v["in"]], "n": v["n"], "out": [list(x) for x in v["out"]], "answer": a}


def answered(v, l):
    """A vector with the answer of an implementation to it, of a line of the harness."""
    return dict(v, answer={"ok": l[1] == b"1", "out": [list(bytes.fromhex(x[1:].decode())) for x in l[2:]]})


def verdicts(c, ps):
    """What the interface says, asked directly."""
    rng = c.rng
    asked = []
    reps = 1 if c.quick else 8
    for scheme in SCHEMES:
        algs = (["toy"] if scheme in TOY else []) + algorithms(scheme)
        for alg in algs:
            for _ in range(reps * (2 if alg == "toy" or len(algs) < 3 else 1)):
                for k, size in enumerate([None, 0, 1, 33]):
                    v = vector(rng, scheme, alg, size=size)
                    impl = toy() if alg == "toy" else real(alg)
                    asked.append((scheme, impl, v))
                    kinds = ["first", "last", "short", "zero", "input", "text", "empty"] if k == 0 else [None]
                    asked += [(scheme, impl, spoilt(rng, scheme, v, kind)) for kind in kinds]
                    if alg == "toy":
                        for where in ("vectors", "neither"):
                            asked.append((scheme, faulty(rng, scheme, [v], where), v))
                    if alg == "poly_1305":
                        w = dict(v, **{"in": [v["in"][0] + b"\0", v["in"][1]]})
                        asked.append((scheme, impl, w))
                        s = [v["in"][0][:rng.randrange(32)], v["in"][1]]
                        asked.append((scheme, impl, dict(v, **{"in": s, "out": [poly(*s)]})))
    # What the generated programs have is asked as well.
    also = []
    for p in ps:
        for impl in p["runtime"][:1] or p["cpltime"][:1]:
            if impl["algorithm"] != "toy":
                also += [(p["scheme"], impl, g, k) for g in p["groups"] for k in range(len(g))]
    # Comparisons: each fault that is to be seen, on either side.
    pairs = []
    for scheme in ("hash", "mac", "kdf-hkdf", "kdf-pbkdf-2", "cipher-encrypt"):
        m = {"hash": 512, "mac": 512, "kdf-hkdf": 255, "kdf-pbkdf-2": 127, "cipher-encrypt": 64}[scheme]
        fs = {"hash": [toy("piece", 1), toy("piece", m), toy("content"), toy("piece", 2000)],
              "mac": [toy("piece", 1), toy("piece", m), toy("content"), toy("piece", 2000), toy("key", 0), toy("key", m), toy("key", 2000)],
              "kdf-hkdf": [toy("size", 1), toy("size", m), toy("size", rng.randrange(2, m)), toy("size", 2000)],
              "kdf-pbkdf-2": [toy("size", 1), toy("size", m), toy("size", rng.randrange(2, m)), toy("size", 2000), toy("count", m), toy("count", 1),
                              toy("count", rng.randrange(2, m))],
              "cipher-encrypt": [toy("piece", 1), toy("piece", m), toy("piece", 1001), toy("piece", 1000 + m), toy("piece", 500), toy("piece", 1500)]}[scheme]
        pairs.append((scheme, toy(), toy()))
        for f in fs:
            pairs += [(scheme, toy(), f), (scheme, f, toy())]
        pairs.append((scheme, fs[0], fs[0]))
    types = {(s if not s.startswith(("cipher", "aead", "codec")) else s.split("-")[0], cxx(s, i)) for s, i, _ in asked + [(s, i, 0) for s, i, _, _ in also]}
    macro = {"hash": "HASH", "mac": "MAC", "kdf-hkdf": "HKDF", "kdf-pbkdf-2": "PBKDF", "cipher": "CIPHER", "aead": "AEAD", "codec": "CODEC"}
    name = lambda t: t.replace(" ", "")
    alias, lines = {}, []
    for _, t in sorted(types) + [("", cxx(s, x)) for s, a, b in pairs for x in (a, b)]:
        if t not in alias:
            alias[t] = "type_%d" % len(alias)
            lines.append("using %s = %s;" % (alias[t], t))
    with open(c.path("testing_types.h"), "w") as f:
        f.write("\n".join(lines))
        f.write("\n#define TYPES \\\n" + " \\\n".join("    %s(\"%s\", %s)" % (macro[s], name(t), alias[t]) for s, t in sorted(types)) + "\n")
        seen = {}
        for s, a, b in pairs:
            seen[s, name(cxx(s, a)), name(cxx(s, b))] = "    DIFFER(%s, \"%s\", \"%s\", \"%s\", %s, %s)" % (
                SPACE[s], s, name(cxx(s, a)), name(cxx(s, b)), alias[cxx(s, a)], alias[cxx(s, b)])
        f.write("\n#define PAIRS \\\n" + " \\\n".join(seen.values()) + "\n")
    exe = c.path("testing")
    run_build(["g++", "-std=c++20", "-O1"] + INC + DEF + ["-I" + HARNESS, "-I" + c.dir, os.path.join(HARNESS, "testing.cpp")] + build_asm(c) +
              ["-o", exe], "a program that uses the interface for tests")
    text = []
    for s, i, v in asked + [(s, i, g[k]) for s, i, g, k in also]:
        text.append("%s %s %s %d %s" % (s, name(cxx(s, i)), rng.choice(["string", "vector", "view"]), v["n"],
                                        " ".join(":" + x.hex() for x in v["in"] + v["out"])))
    for s, a, b in pairs:
        text.append("%s %s/%s pair 0" % (s, name(cxx(s, a)), name(cxx(s, b))))
    r = sh([exe], input="\n".join(text).encode() + b"\n", timeout=300)
    got = [l.split() for l in r.stdout.splitlines()]
    if r.returncode == 3 or r.returncode == 0 and len(got) != len(text):
        raise Broken("testing: %s" % r.stderr[-500:])
    if r.returncode != 0:
        raise Violation("the interface for tests ends the process: %s" % text[max(0, len(got) - 1):][:2], {"code": r.returncode})
    out = []
    for (s, i, v), g, t in zip(asked, got, text):
        out.append(({"kind": "verdict", "scheme": s, "impl": i, "vector": record(answered(v, g)), "verdict": g[0] == b"1"},
                    "the test interface says %s of %s" % ("yes" if g[0] == b"1" else "no", t)))
    for (s, i, g, k), l in zip(also, got[len(asked):]):
        g[k] = answered(g[k], l)
    for (s, a, b), g in zip(pairs, got[len(asked) + len(also):]):
        out.append(({"kind": "differential", "scheme": s, "a": a, "b": b, "verdict": g[0] == b"1"},
                    "the comparison of %s and %s says %s" % (cxx(s, a), cxx(s, b), "yes" if g[0] == b"1" else "no")))
    return out


def programs(c):
    """Configurations, and what is to be made of them."""
    rng = c.rng
    out = []

    def utf8(x):
        try:
            x.decode()
            return x
        except UnicodeDecodeError:
            return x.decode("latin-1").encode()

    def add(scheme, cpltime, runtime, groups, constexpr=False, **kw):
        # A text in a configuration is one of characters.
        if scheme == "codec-encode":
            groups = [[dict(v, out=[utf8(x) for x in v["out"]]) for v in g] for g in groups]
        elif scheme == "codec-decode":
            groups = [[dict(v, **{"in": [utf8(x) for x in v["in"]]}) for v in g] for g in groups]
        out.append(dict(scheme=scheme, cpltime=cpltime, runtime=runtime, groups=groups, constexpr=constexpr, **kw))

    for scheme in SCHEMES:
        toys = scheme in TOY
        algs = algorithms(scheme)

        def some(alg, n=None):
            n = rng.randrange(2, 5) if n is None else n
            vs = [vector(rng, scheme, alg, i=rng.choice([j + 1, 7, 2**40 + j])) for j in range(n)]
            return vs

        def split(vs):
            k = rng.randrange(len(vs) + 1)
            return rng.choice([[vs], [vs[:k], vs[k:]], [[], vs], [vs[:k], [], vs[k:]]])

        for _ in range(1 if c.quick else 6):
            alg = "toy" if toys else rng.choice(algs)
            right = toy() if toys else real(alg)
            for constexpr in (False, True):
                vs = some(alg)
                add(scheme, [right], [right] + ([right] if rng.random() < 0.5 else []), split(vs), constexpr)
                # One vector that is not met, the first, the last or another one.
                k = rng.choice([0, len(vs) - 1, rng.randrange(len(vs))])
                add(scheme, [right], [right], split(vs[:k] + [spoilt(rng, scheme, vs[k])] + vs[k + 1:]), constexpr)
            vs = some(alg)
            for kind in ("short", "zero") if c.quick else ("short", "zero", "empty", "first", "last", "input"):
                k = rng.randrange(len(vs))
                add(scheme, [], [right], split(vs[:k] + [spoilt(rng, scheme, vs[k], kind)] + vs[k + 1:]))
            # A vector whose id is what says that all were met.
            k = rng.randrange(len(vs))
            add(scheme, [], [right], split(vs[:k] + [dict(spoilt(rng, scheme, vs[k], "long"), id=0)] + vs[k + 1:]))
            # One that a narrower number would say that of.
            add(scheme, [], [right], split(vs[:k] + [dict(spoilt(rng, scheme, vs[k], "long"), id=2**rng.choice([8, 16, 31, 32, 32, 33, 48, 63]))] + vs[k + 1:]))
            if rng.random() < 0.3:
                add(scheme, [], [], split(vs))
                add(scheme, [right], [], split(vs))
                add(scheme, [], [right], [[]])
            if scheme in TEXT:
                # Any text is one that a program can be made of.
                ts = [vector(rng, scheme, alg, i=j + 1, size=rng.choice([0, 31, 32, 33, 70])) for j in range(3)]
                add(scheme, [right], [right], split(ts))
                for h in rng.sample(HOSTILE, 3) if c.quick else HOSTILE:
                    t = spoilt(rng, scheme, ts[0], "any")
                    if scheme == "codec-decode":
                        t["in"][0], t["out"] = h, expected(scheme, alg, [h], 1, 0)
                    else:
                        t["out"][0] = h
                    add(scheme, [], [right], [[t] if rng.random() < 0.5 else ts[:1] + [t]])
            if toys:
                # Implementations that have faults, at every place of the list.
                for where in ("vectors", "comparison", "neither"):
                    n = rng.choice([2, 3])
                    run = [right] * n
                    k = rng.randrange(n)
                    run[k] = faulty(rng, scheme, vs, where)
                    add(scheme, [right], run, split(vs))
                bad = faulty(rng, scheme, vs, "vectors")
                add(scheme, [right, bad], [right], split(vs), rng.random() < 0.5)
                add(scheme, [bad, right], [right], split(vs), True)
            if toys and (not c.quick or rng.random() < 0.3):
                a = rng.choice(algs)
                if scheme not in DIFF:
                    add(scheme, [real(a)], [real(a)], split(some(a)), rng.random() < 0.5)
    return out


def config(c, p):
    rng = c.rng
    s = p["scheme"]
    names, decl = {}, []

    def alias(kind, i, impl):
        n = "impl_%s_%d" % (kind, i)
        decl.append("using %s = %s;" % (n, cxx(s, impl)))
        return n

    cpl = [alias("c", i, x) for i, x in enumerate(p["cpltime"])]
    run = [alias("r", i, x) for i, x in enumerate(p["runtime"])]
    case = rng.choice([str.lower, str.upper])

    def field(k, x):
        return x.decode() if TEXT.get(s) == k else case(x.hex())

    groups = []
    for g in p["groups"]:
        data = []
        for v in g:
            d = [("id", v["id"])] + [(k, field(k, x)) for k, x in zip(INS[s], v["in"])] + [(k, field(k, x)) for k, x in zip(OUTS[s], v["out"])]
            if s == "kdf-pbkdf-2":
                d.append(("iterations", v["n"]))
            if rng.random() < 0.3:
                d.append(("comment", "none"))
            rng.shuffle(d)
            data.append(dict(d))
        groups.append({"data": data})
    return {"scheme": "test-primitive-" + s,
            "payload": {"impl": {"cpltime": cpl, "runtime": run}, "include": ["<milo/primitive/detail/alias.h>", '"testing_toy.h"', '"impls.h"'],
                        "vectors": groups}}, "#pragma once\n" + "\n".join(decl) + "\n"


ALL = "#include <iostream>\n#include <milo/internal.h>\n#include <milo/literal.h>\n#include \"testing_toy.h\"\n#include <milo/primitive/detail/alias.h>\n" + \
      "".join("#include <milo/primitive/%s/test.h>\n" % x for x in ("hash", "mac", "kdf", "cipher", "aead", "codec"))


def generate_programs(c, ps):
    gen = os.path.join(REPO, "tool", "codegen")
    # The generator runs from a copy: it leaves byte code beside its sources.
    cg = c.path("codegen")
    if os.path.exists(cg):
        shutil.rmtree(cg)
    shutil.copytree(gen, cg, ignore=shutil.ignore_patterns("__pycache__"))
    flags = ["g++", "-std=c++20", "-O1", "-w"] + INC + DEF + ["-I" + HARNESS]
    pre = c.path("pre")
    os.makedirs(pre, exist_ok=True)
    with open(os.path.join(pre, "all.h"), "w") as f:
        f.write(ALL)
    for mode in ("0", "1"):
        run_build(flags + (["-DMILO_TEST_CONSTEXPR"] if mode == "1" else []) + ["-x", "c++-header", os.path.join(pre, "all.h"), "-o", os.path.join(pre, "all%s.h.gch" % mode)],
                  "the headers of the interface for tests")
        with open(os.path.join(pre, "all%s.h" % mode), "w") as f:
            f.write("#error a precompiled header was not used\n")
    objs = build_asm(c)
    ready = [config(c, p) for p in ps]
    alone = set()
    for i, p in enumerate(ps):
        if all(ps[j]["scheme"] != p["scheme"] for j in alone):
            alone.add(i)

    def one(i):
        p, (conf, decl) = ps[i], ready[i]
        d = c.path("prog%d" % i)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "config.json"), "w") as f:
            json.dump(conf, f, ensure_ascii=bool(i % 2))
        with open(os.path.join(d, "impls.h"), "w") as f:
            f.write(decl)
        src = os.path.join(d, "test.cpp")
        r = sh([sys.executable, "-B", "-c", "import main; main.main()", "--config-path", os.path.join(d, "config.json"), "--output-path", src], cwd=cg, timeout=120,
               env=dict(os.environ, PYTHONUTF8="1"))
        res = {"generated": r.returncode == 0 and os.path.exists(src), "compiled": False, "ran": False, "exit": 0, "named": []}
        p["said"] = r.stderr.decode(errors="replace")[-300:]
        if res["generated"]:
            exe = os.path.join(d, "test")
            fl = flags + ["-I" + d]
            if i not in alone:
                fl += ["-include", os.path.join(pre, "all%d.h" % p["constexpr"])]
            if p["constexpr"]:
                fl += ["-DMILO_TEST_CONSTEXPR", "-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=10000000"]
            cc = sh(fl + (["-fsyntax-only", src] if p["constexpr"] and i % 2 else [src] + objs + ["-o", exe]), timeout=300)
            err = cc.stderr.decode(errors="replace")
            if cc.returncode not in (0, 1) or "internal compiler error" in err or "a precompiled header was not used" in err or (cc.returncode and "error:" not in err):
                raise Broken("compiler: %s" % err[-1500:])
            res["compiled"] = cc.returncode == 0
            p["said"] = "\n".join([l for l in err.splitlines() if "error:" in l][:2])
            if os.path.exists(exe):
                r = sh([exe], timeout=300)
                res["ran"] = True
                res["exit"] = abs(r.returncode)
                e = r.stderr.decode(errors="replace")
                res["named"] = [k + 1 for k in range(len(p["runtime"])) if re.search(r"\bimpl_r_%d\b" % k, e)]
                p["said"] = e[:300]
        if os.path.exists(os.path.join(d, "test")):
            os.remove(os.path.join(d, "test"))
        return res
    got = parallel([lambda i=i: one(i) for i in range(len(ps))])
    out = []
    for i, (p, g) in enumerate(zip(ps, got)):
        rec = {"kind": "program", "scheme": p["scheme"], "cpltime": p["cpltime"], "runtime": p["runtime"], "constexpr": p["constexpr"],
               "groups": [[record(v) for v in x] for x in p["groups"]]}
        rec.update(g)
        what = "not generated" if not g["generated"] else "does not compile" if not g["compiled"] else "exits with %d" % g["exit"] if g["ran"] else "compiles"
        out.append((rec, "test program for %s, %s: %s; %s" % (p["scheme"], "compile time" if p["constexpr"] else "run time", what, p["said"])))
    return out


def decide(c, records, tag):
    parts = [records[i::JOBS] for i in range(JOBS)]

    def one(i):
        p = c.path("%s%d.json" % (tag, i))
        with open(p, "w") as f:
            for rec, _ in parts[i]:
                # Ids beyond the integers of TLC are as good as any other that is not zero.
                f.write(json.dumps(small(rec)) + "\n")
        return tlc(c, "TestingTrace", env={"RECORDS": p})
    for i, r in enumerate(parallel([lambda i=i: one(i) for i in range(JOBS)])):
        if r.ok:
            if r.distinct != len(parts[i]) + 1:
                raise Broken("TestingTrace: %d states for %d records" % (r.distinct, len(parts[i])))
            c.add(r.distinct, r.generated, len(parts[i]))
            c.sample(parts[i][-1][1][:300])
        elif r.deadlock:
            rec, what = parts[i][refused_at(r) - 1]
            c.violation(what, {"record": rec})
        else:
            raise Broken("TestingTrace: %s" % r.error[-2000:])


def small(rec):
    if rec["kind"] != "program":
        return rec
    return dict(rec, groups=[[dict(v, id=min(v["id"], 1000)) for v in g] for g in rec["groups"]])


def check(c):
    design(c, "TestingDesign")
    for drop in ("prefix", "first", "last", "zero", "quiet", "pairs", "nobody"):
        r = tlc(c, "TestingDesign", "Testing_%s.cfg" % drop, cwd=os.path.join(SPEC, "design"))
        if not r.violated:
            raise Broken("Testing_%s: %s" % (drop, r.out[-500:]))
    ps = programs(c)
    v = verdicts(c, ps)
    g = generate_programs(c, ps)
    c.note(verdicts=len(v), programs=len(ps), programs_accepted=sum(1 for r, _ in g if r["ran"] and r["exit"] == 0),
           programs_rejected=sum(1 for r, _ in g if r["ran"] and r["exit"] != 0), accepted=sum(1 for r, _ in v if r["verdict"]))
    decide(c, v + g, "records")


if __name__ == "__main__":
    main("C25", check)
