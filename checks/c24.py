"""C24: what cannot work does not compile, what can does."""
import itertools

from mv.core import *

BYTES = ["char", "signed char", "unsigned char"]
WIDE = ["int", "short", "wchar_t", "char32_t", "double", "void*", "unsigned long"]


class Place:
    def __init__(self, cxx, form, elem, writable, grows=False, size=0, silent=True):
        self.cxx = cxx
        self.d = {"form": form, "elem": elem, "writable": writable, "grows": grows, "size": size, "silent": silent}


def arr(e, n, const=False):
    return Place("%sstd::array<%s,%d>" % ("const " if const else "", e, n), "own", e, not const, size=n)


def fixed(e, n):
    return Place("Fixed<%s,%d>" % (e, n), "own", e, True, size=n)


def vec(e, const=False):
    return Place("%sstd::vector<%s>" % ("const " if const else "", e), "own", e, not const, grows=not const)


def string(e="char", const=False):
    return Place("%sstd::basic_string<%s>" % ("const " if const else "", e), "own", e, not const, grows=not const)


def growing(e):
    return Place("Growing<%s>" % e, "own", e, True, grows=True)


def span(e, n=None):
    return Place("std::span<%s%s>" % (e, "" if n is None else ",%d" % n), "view", e, True, size=n or 0)


def cspan(e, n=None):
    return Place("std::span<const %s%s>" % (e, "" if n is None else ",%d" % n), "view", e, False, size=n or 0)


def view(e="char"):
    return Place("std::basic_string_view<%s>" % e, "view", e, False)


def loud(e):
    return Place("Loud<%s>" % e, "own", e, True, size=16, silent=False)


def ptr(e, const=False):
    return Place("%s%s*" % ("const " if const else "", e), "pointer", e, not const)


def inputs(rng, own, good=True, k=None):
    e = rng.choice(BYTES)
    if good:
        l = [arr(e, rng.choice([0, 1, 12, 16, 32, 33, 64])), arr(e, 7, True), vec(e), vec(e, True), string(), string(const=True), span(e),
             span(e, 5), cspan(e), cspan(e, 9), view(), fixed(e, 3), growing(e)] if own else [ptr(e), ptr(e, True)]
    else:
        w = rng.choice(WIDE)
        l = [arr(w, rng.choice([1, 16])), vec(w), string("wchar_t"), string("char32_t", True), span(w), cspan(w), view("char16_t"),
             fixed(w, 4), growing(w), loud(e)] if own else [ptr(w), ptr(w, True)]
    return l[k % len(l)] if k is not None else rng.choice(l)


def outputs(rng, own, good=True, k=None):
    e = rng.choice(BYTES)
    if good:
        l = [arr(e, rng.choice([0, 1, 16, 20, 64, 100])), vec(e), string(), span(e), span(e, 16), fixed(e, 8), growing(e)] if own else [ptr(e)]
    else:
        w = rng.choice(WIDE)
        l = [arr(e, 16, True), vec(e, True), string(const=True), cspan(e), cspan(e, 16), view(), loud(e), arr(w, 16), vec(w), string("wchar_t"),
             span(w), fixed(w, 4), growing(w)] if own else [ptr(e, True), ptr(w)]
    return l[k % len(l)] if k is not None else rng.choice(l)


# The kinds of them: good and bad ones, objects and pointers.
KINDS = {"in": {(True, True): 13, (True, False): 10, (False, True): 2, (False, False): 2},
         "out": {(True, True): 7, (True, False): 14, (False, True): 1, (False, False): 2}}


HASH = [("sha_1_160", 20), ("sha_2_224", 28), ("sha_2_256", 32), ("sha_2_384", 48), ("sha_2_512", 64), ("sha_2_512_224", 28),
        ("sha_2_512_256", 32)]
CALLS = {
    "hash": {"update": (1, 0, "none", 0), "digest": (0, 1, "digest", 0), "one": (1, 1, "digest", 0)},
    "mac": {"construct": (1, 0, "none", 0), "initialize": (1, 0, "none", 0), "update": (1, 0, "none", 0), "digest": (0, 1, "digest", 0),
            "one": (2, 1, "digest", 0)},
    "hkdf": {"construct": (3, 0, "none", 0), "initialize": (3, 0, "none", 0), "derive": (0, 1, "key", 0), "one": (3, 1, "key", 0)},
    "pbkdf": {"construct": (2, 0, "none", 0), "initialize": (2, 0, "none", 0), "derive": (0, 1, "key", 0), "one": (2, 1, "key", 0)},
    "cipher": {"construct": (2, 0, "none", 0), "initialize": (2, 0, "none", 0), "encrypt": (1, 1, "text", 0), "decrypt": (1, 1, "text", 0),
               "encrypt_one": (3, 1, "text", 0), "decrypt_one": (3, 1, "text", 0), "encrypt_size": (1, 0, "none", 0),
               "decrypt_size": (1, 0, "none", 0)},
    "aead": {"construct": (2, 0, "none", 0), "initialize": (2, 0, "none", 0), "aad": (1, 0, "none", 0), "encrypt": (1, 1, "text", 0),
             "decrypt": (1, 1, "text", 0), "digest": (0, 1, "digest", 0), "verify": (1, 0, "none", 1), "encrypt_one": (4, 2, "text", 0),
             "decrypt_one": (5, 1, "text", 1), "encrypt_size": (1, 0, "none", 0), "decrypt_size": (1, 0, "none", 0)},
    "codec": {"encode": (1, 1, "text", 0), "decode": (1, 1, "text", 1), "encode_one": (1, 1, "text", 0), "decode_one": (1, 1, "text", 1),
              "encode_size": (1, 0, "none", 0), "decode_size": (1, 0, "none", 0)},
}
NAMES = {"one": {"hash": "digest", "mac": "digest", "hkdf": "derive", "pbkdf": "derive"}}
SPACE = {"hkdf": "kdf", "pbkdf": "kdf"}


def impls(rng):
    """An algorithm of each group: its type, and the size of its digest."""
    h, d = rng.choice(HASH)
    s = rng.randrange(1, d + 1)
    big = h in ("sha_2_384", "sha_2_512", "sha_2_512_224", "sha_2_512_256")
    short = "mp::hash::%s<mo::digest_size<%d>>" % (h, s)
    out = {"hash": ("mp::hash_" + h, d), "mac": ("mp::mac_hmac_" + h, d), "hkdf": ("mp::kdf_hkdf_hmac_" + h, 0),
           "pbkdf": ("mp::kdf_pbkdf_2_hmac_" + h, 0), "cipher": ("mp::cipher_chacha_20", 0), "aead": ("mp::aead_chacha_20_poly_1305", 16),
           "codec": (rng.choice(["mp::codec_base_16", "mp::codec_base_64"]), 0)}
    k = rng.randrange(4)
    if k == 0:
        out["hash"] = (short, s)
        out["mac"] = ("mp::mac::hmac<%s>" % short, s)
    elif k == 1:
        out["mac"] = ("mp::mac_poly_1305", 16)
    elif k == 2:
        t = rng.randrange(1, 17)
        out["mac"] = ("mp::mac::poly_1305<mo::digest_size<%d>>" % t, t)
    return out


class Form:
    """A form of a call, and the expression which asks for it."""

    def __init__(self, group, call, impl, kind, digest, ins, outs, how, errs, count):
        self.rec = {"kind": "form", "group": group, "call": call, "impl": {"kind": kind, "digest": digest}, "ins": [p.d for p in ins],
                    "outs": [p.d for p in outs], "how": how, "errs": [{"milo::error": "error"}.get(e, e) for e in errs], "count": count}
        args = []
        own = (ins + outs or [None])[0]
        pointers = bool(own) and own.d["form"] == "pointer"
        for p in ins:
            args.append("any<%s>()" % p.cxx)
            if p.d["form"] == "pointer":
                args.append("size_t(5)")
        if count:
            args.append("uint32_t(3)")
        tpl = ""
        if how == "into":
            for i, p in enumerate(outs):
                args.append("any<%s>()" % p.cxx)
                # A text is as large as its input; a key as asked; a digest as asked, or whole.
                if p.d["form"] == "pointer" and group in ("hkdf", "pbkdf"):
                    args.append("size_t(40)")
            if outs and not pointers and group in ("hkdf", "pbkdf"):
                args.append("size_t(7)")
        elif outs:
            tpl = "<%s>" % ",".join(p.cxx for p in outs)
            if how == "sized":
                args.append("size_t(9)")
        args += ["any<%s>()" % e for e in errs]
        space = "mp::" + SPACE.get(group, group)
        a = ", ".join(args)
        if call == "construct":
            self.cxx = "%s::apie<%s>(%s)" % (space, impl, a)
        elif call.endswith("one"):
            name = NAMES["one"][group] if call == "one" else call[:-4]
            self.cxx = "%s::%s<%s%s>(%s)" % (space, name, impl, "," + tpl[1:-1] if tpl else "", a)
        else:
            obj = "%s::apie<%s>" % (space, impl)
            at = obj + "::" if group == "codec" else "any<%s>()." % obj
            self.cxx = "%s%s%s%s(%s)" % (at, "template " if tpl and False else "", call, tpl, a)

    def text(self):
        return "#include \"admit.h\"\nvoid f()\n{\n    (void)%s;\n}\n" % self.cxx


def returned(rng, gives, how, digest, good):
    """A type to return, one that can hold it or not."""
    e, w = rng.choice(BYTES), rng.choice(WIDE)
    if how == "sized":
        l = [vec(e), string(), growing(e)] if good else [arr(e, 9), fixed(e, 9), vec(w), growing(w), string("wchar_t"), view(), cspan(e)]
    elif gives == "text":
        l = [vec(e), string(), growing(e)] if good else [arr(e, 64), fixed(e, 64), arr(w, 64), vec(w), growing(w), span(e), view()]
    elif gives == "key":
        l = [arr(e, rng.choice([1, 16, 40, 100])), fixed(e, 9)] if good else [arr(w, 4), fixed(w, 4), vec(w), cspan(e, 0), arr(e, 4, True), vec(e), string(), growing(e)]
    else:
        n = rng.choice([1, digest, rng.randrange(1, digest + 1)])
        m = rng.choice([0, digest + 1, digest + 1, digest + rng.randrange(2, 60)])
        l = [arr(e, n), fixed(e, n)] if good else [arr(e, m), fixed(e, m), arr(e, m), arr(w, n), fixed(w, n), arr(e, n, True), span(e, n), vec(e), string(), growing(e)]
    return rng.choice(l)


def forms(c, group, call):
    rng = c.rng
    n, o, gives, fails = CALLS[group][call]
    out = []

    def add(good_impl=True, bad_in=None, bad_out=None, how="into", own=True, errs=None, count=None, drop=False,
            kin=None, kout=None):
        im = impls(rng)
        kind = group if good_impl else rng.choice([g for g in im if g != group and not (group in ("hkdf", "pbkdf") and g in ("hkdf", "pbkdf"))])
        t, d = im[kind]
        ins = [inputs(rng, own, i != bad_in, kin[1] if kin and kin[0] == i else None) for i in range(n)]
        if drop and ins:
            ins = ins[:-1]
        if how == "into":
            outs = [outputs(rng, own, i != bad_out, kout[1] if kout and kout[0] == i else None) for i in range(o)]
        else:
            outs = [returned(rng, "digest" if i == 1 else gives, how, max(d, 1), i != bad_out) for i in range(o)]
        if errs is None:
            errs = ["milo::error"] if fails and rng.random() < 0.6 else []
        # What a codec returns it returns without a place for the error.
        if group == "codec" and how != "into" and errs == ["milo::error"]:
            errs = []
        if count is None:
            count = group == "pbkdf" and n > 0
        # Only a shortened digest of another algorithm could be asked for where there is none.
        if not good_impl and how != "into":
            outs = [returned(rng, "digest" if i == 1 else gives, how, 16, True) for i in range(o)]
        out.append(Form(group, call, t, kind, d, ins, outs, how, errs, count))

    hows = ["into"]
    if o:
        hows += ["whole"] + (["sized"] if gives != "text" else [])
    reps = 1 if c.quick else 16
    for _ in range(reps):
        for how in hows:
            for own in (True, False) if how == "into" else (True,):
                add(how=how, own=own)
                add(how=how, own=own)
                for i in range(n):
                    add(how=how, own=own, bad_in=i)
                for i in range(o):
                    add(how=how, own=own, bad_out=i)
                    add(how=how, own=own, bad_out=i)
                if rng.random() < 0.6:
                    add(how=how, own=own, good_impl=False)
                if fails:
                    add(how=how, own=own, errs=[])
                    add(how=how, own=own, errs=["milo::error"])
                    add(how=how, own=own, errs=[rng.choice(["int", "bool", "const milo::error", "std::error_code"])])
                    add(how=how, own=own, errs=["milo::error", "milo::error"])
        if group in ("hkdf", "pbkdf") and n:
            # The arguments of the other derivation.
            im = impls(rng)
            other = "pbkdf" if group == "hkdf" else "hkdf"
            for own in (True, False):
                ins = [inputs(rng, own) for _ in range(n)]
                outs = [outputs(rng, own) for _ in range(o)]
                out.append(Form(group, call, im[other][0], other, 0, ins, outs, "into", [], group == "pbkdf"))
        if n == 3 and group == "hkdf" and not o:
            add(drop=True)
    # Every kind of place at every position.
    for own in (True, False):
        for good in (True, False):
            for i in range(n):
                for k in range(KINDS["in"][own, good]):
                    add(own=own, bad_in=None if good else i, kin=(i, k), how=rng.choice(hows) if own else "into")
            for i in range(o):
                for k in range(KINDS["out"][own, good]):
                    for errs in ([[], ["milo::error"]] if fails else [None]):
                        add(own=own, bad_out=None if good else i, kout=(i, k), errs=errs)

    # The sizes around those which a returned digest can have.
    if gives == "digest" or o == 2:
        for _ in range(1 if c.quick else 8):
            t, d = impls(rng)[group]
            for size in (0, 1, d - 1, d, d + 1, d + 2):
                for mk in (arr, fixed):
                    ins = [inputs(rng, True) for _ in range(n)]
                    outs = ([vec("char")] if o == 2 else []) + [mk(rng.choice(BYTES), size)]
                    out.append(Form(group, call, t, group, d, ins, outs, "whole", [], False))
    return out


def declared(c):
    """Algorithms as types."""
    out = []

    def t(rec, cxx, body="(void)any<T>();"):
        rec = dict(rec, text=cxx)
        out.append((rec, "#include \"admit.h\"\nusing T = %s;\ntemplate class std::vector<T>;\nvoid f()\n{\n    %s\n}\n" % (cxx, body)))

    im = {"hash": "mp::hash_sha_2_256", "hmac": "mp::mac_hmac_sha_2_256", "poly": "mp::mac_poly_1305", "hkdf": "mp::kdf_hkdf_hmac_sha_1_160",
          "pbkdf": "mp::kdf_pbkdf_2_hmac_sha_1_160", "cipher": "mp::cipher_chacha_20", "aead": "mp::aead_chacha_20_poly_1305",
          "codec": "mp::codec_base_16", "int": "int", "string": "std::string"}
    outer = {"hmac": "mp::mac::hmac<%s>", "hkdf": "mp::kdf::hkdf<%s>", "pbkdf": "mp::kdf::pbkdf_2<%s>"}
    for o, f in outer.items():
        for k, x in im.items():
            t({"kind": "composed", "outer": o, "parts": [k]}, f % x)
    for a, b in itertools.product(im, im):
        if (a, b) == ("cipher", "poly") or a in ("cipher", "poly", "hmac", "hash") and b in ("poly", "cipher", "hmac", "int"):
            t({"kind": "composed", "outer": "aead", "parts": [a, b]}, "mp::detail::aead_chacha_20_poly_1305<%s,%s>" % (im[a], im[b]))
    use = "T x; unsigned char b[100] = {}; %sx.update(b, sizeof b); x.finalize(); x.digest(b, sizeof b);"
    for h, d in HASH + [("poly_1305", 16)]:
        for n in sorted({0, 1, d - 1, d, d + 1, d + 3, 64, 65, 1000, 2**32 - 1, c.rng.randrange(1, d), d + c.rng.randrange(2, 40)}):
            rec = {"kind": "shortened", "algorithm": h, "size": n if n < 2**31 else 2**31 - 1}
            o = "mo::digest_size<%d>" % n
            if h == "poly_1305":
                t(rec, "mp::mac::poly_1305<%s>" % o, use % "x.initialize(b, 32); ")
            else:
                t(rec, "mp::hash::%s<%s>" % (h, o), use % "")
                t(rec, "mp::mac::hmac<mp::hash_%s,%s>" % (h, o), use % "x.initialize(b, 32); ")
                t(rec, "mp::mac::hmac<mp::hash::%s<%s>>" % (h, o), use % "x.initialize(b, 32); ")
    return out


VALUE = """#include "admit.h"
#include <cstdio>
#include <type_traits>
template<typename T> void value(const char* a)
{
    std::printf("{\\"kind\\":\\"value\\",\\"text\\":\\"%%s\\",\\"copies\\":%%s,\\"moves\\":%%s,\\"copied\\":%%s,\\"moved\\":%%s,\\"destroyed\\":%%s}\\n", a,
        std::is_nothrow_copy_constructible_v<T> ? "true" : "false", std::is_nothrow_move_constructible_v<T> ? "true" : "false",
        std::is_nothrow_copy_assignable_v<T> ? "true" : "false", std::is_nothrow_move_assignable_v<T> ? "true" : "false",
        std::is_nothrow_destructible_v<T> ? "true" : "false");
}
#define N(f) (requires { T::f; } ? 0 : 1)
template<typename T> void constants(const char* over, const char* alg)
{
    long block = -1, digest = -1, key = -1, iv = -1;
    if constexpr (requires { T::block_size; }) block = T::block_size;
    if constexpr (requires { T::digest_size; }) digest = T::digest_size;
    if constexpr (requires { T::key_size; }) key = T::key_size;
    if constexpr (requires { T::iv_size; }) iv = T::iv_size;
    std::printf("{\\"kind\\":\\"constants\\",\\"over\\":\\"%%s\\",\\"algorithm\\":\\"%%s\\",\\"block\\":%%ld,\\"digest\\":%%ld,\\"key\\":%%ld,\\"iv\\":%%ld}\\n",
        over, alg, block, digest, key, iv);
}
int main()
{
%s
}
"""


def values():
    l = []
    for h, _ in HASH:
        for space, x in (("hash", "mp::hash_" + h), ("mac", "mp::mac_hmac_" + h), ("kdf", "mp::kdf_hkdf_hmac_" + h), ("kdf", "mp::kdf_pbkdf_2_hmac_" + h)):
            l += ['value<%s>("%s");' % (x, x), 'value<mp::%s::apie<%s>>("apie<%s>");' % (space, x, x)]
        for x in ("mp::hash_" + h, "mp::hash::apie<mp::hash_%s>" % h):
            l.append('constants<%s>("hash", "%s");' % (x, h))
        for x in ("mp::mac_hmac_" + h, "mp::mac::apie<mp::mac_hmac_%s>" % h):
            l.append('constants<%s>("hmac", "%s");' % (x, h))
    for space, x, over in (("mac", "mp::mac_poly_1305", "mac"), ("cipher", "mp::cipher_chacha_20", "cipher"),
                           ("aead", "mp::aead_chacha_20_poly_1305", "aead")):
        l += ['value<%s>("%s");' % (x, x), 'value<mp::%s::apie<%s>>("apie<%s>");' % (space, x, x)]
        for y in (x, "mp::%s::apie<%s>" % (space, x)):
            l.append('constants<%s>("%s", "%s");' % (y, over, "poly_1305" if over == "mac" else "other"))
    return VALUE % "\n".join("    " + x for x in l)


GXX = ["g++", "-std=c++20", "-O0"]


class Compiler:
    def __init__(self, c):
        self.c = c
        shutil.copy(os.path.join(HARNESS, "admit.h"), c.path("admit.h"))
        self.flags = GXX + INC + DEF
        run_build(self.flags + ["-x", "c++-header", c.path("admit.h"), "-o", c.path("admit.h.gch")], "the headers of the library")

    def admits(self, name, text):
        p = self.c.path(name + ".cpp")
        with open(p, "w") as f:
            f.write(text)
        r = sh(self.flags + ["-I" + self.c.dir, "-fsyntax-only", "-w", "-fmax-errors=1", p], timeout=120)
        err = r.stderr.decode(errors="replace")
        if r.returncode not in (0, 1) or "internal compiler error" in err or r.returncode and "error:" not in err:
            raise Broken("compiler: %s" % err[-1000:])
        os.remove(p)
        return r.returncode == 0, [l for l in err.splitlines() if "error:" in l][:1]


def check(c):
    design(c, "AdmitDesign")
    # No rule is dispensable.
    for rule in ("bound", "writable", "elements", "silent", "grows"):
        r = tlc(c, "AdmitDesign", "Admit_%s.cfg" % rule, cwd=os.path.join(SPEC, "design"))
        if not r.violated:
            raise Broken("Admit_%s: %s" % (rule, r.out[-500:]))
    g = Compiler(c)
    fs = [f for grp in CALLS for call in CALLS[grp] for f in forms(c, grp, call)]
    seen, distinct = set(), []
    for f in fs:
        if f.cxx not in seen:
            seen.add(f.cxx)
            distinct.append(f)
    fs = distinct
    types_ = declared(c)

    def lane(j):
        for i in range(j, len(fs), JOBS):
            ok, err = g.admits("form%d" % j, fs[i].text())
            fs[i].rec.update(compiled=ok, known=False, quiet=False)
            fs[i].err = err
        for i in range(j, len(types_), JOBS):
            ok, err = g.admits("type%d" % j, types_[i][1])
            types_[i][0].update(compiled=ok, error=err)
    parallel([lambda j=j: lane(j) for j in range(JOBS)])
    # What those that exist promise.
    have = [f for f in fs if f.rec["compiled"]]
    with open(c.path("promise.cpp"), "w") as f:
        f.write("#include \"admit.h\"\n#include <cstdio>\nint main()\n{\n")
        for i, x in enumerate(have):
            f.write("    std::puts(noexcept(%s) ? \"1\" : \"0\");\n" % x.cxx)
        f.write("}\n")
    with open(c.path("value.cpp"), "w") as f:
        f.write(values())
    for n in ("promise", "value"):
        run_build(g.flags + ["-w", "-I" + c.dir, c.path(n + ".cpp"), "-o", c.path(n)], "a program that asks types what they promise")
    r = sh([c.path("promise")], timeout=60)
    q = r.stdout.split()
    if len(q) != len(have):
        raise Broken("promise: %d answers for %d forms" % (len(q), len(have)))
    for x, y in zip(have, q):
        x.rec.update(known=True, quiet=y == b"1")
    vals = [json.loads(l) for l in sh([c.path("value")], timeout=60).stdout.decode().splitlines()]
    for v in vals:
        v["compiled"] = True
    records = [(f.rec, f.cxx, getattr(f, "err", None)) for f in fs] + [(t, t["text"], t.get("error")) for t, _ in types_] + \
              [(v, v.get("text") or v["over"] + " " + v["algorithm"], None) for v in vals]
    c.note(forms=len(fs), forms_that_exist=len(have), types=len(types_), values=len(vals))
    parts = [records[i::JOBS] for i in range(JOBS)]

    def one(i):
        p = c.path("records%d.json" % i)
        with open(p, "w") as f:
            for rec, _, _ in parts[i]:
                f.write(json.dumps({k: v for k, v in rec.items() if k not in ("text", "error")}) + "\n")
        return tlc(c, "AdmitTrace", env={"RECORDS": p})
    for i, r in enumerate(parallel([lambda i=i: one(i) for i in range(JOBS)])):
        if r.ok:
            if r.distinct != len(parts[i]) + 1:
                raise Broken("AdmitTrace: %d states for %d records" % (r.distinct, len(parts[i])))
            c.add(r.distinct, r.generated, len(parts[i]))
        elif r.deadlock:
            rec, cxx, err = parts[i][refused_at(r) - 1]
            if rec["kind"] == "form":
                what = "%s %s" % (cxx, "compiles" if rec["compiled"] else "does not compile")
                if rec["compiled"] and rec["known"]:
                    what += ", and promises %s" % ("not to throw" if rec["quiet"] else "nothing")
            else:
                what = "the type %s %s" % (cxx, "compiles" if rec["compiled"] else "does not compile")
            c.violation(what, {"record": rec, "expression": cxx, "error": err})
        else:
            raise Broken("AdmitTrace: %s" % r.error[-2000:])


if __name__ == "__main__":
    main("C24", check)
