"""C19: the application ends in order and its report is consistent."""
from mv.cli import *
from checks.c18 import expression, parameter, shuffled, harmless


def text(c, most=12):
    """Printable and control ASCII characters."""
    r = c.rng
    k = r.random()
    n = r.randrange(most)
    if k < 0.3:
        return "".join(chr(r.randrange(1, 128)) for _ in range(n))
    if k < 0.6:
        return "".join(r.choice("\"\\\n\t\r\b\f\x01\x1f\x7f{}[]:,/'% *-=a0") for _ in range(n))
    return "".join(r.choice("-=*ab0 \\\"") for _ in range(n))


def strange(c, n):
    """Arguments of any characters, among ordinary ones."""
    r = c.rng
    out = []
    for _ in range(n):
        a = (["--verbose"] if r.random() < 0.8 else []) + [x for x in ("benchmark", "primitive") if r.random() < 0.9]
        if a[-2:] == ["benchmark", "primitive"] and r.random() < 0.9:
            a += [r.choice(["nothing", "hash-sha-1-160", "codec-base-16-*", text(c)]), "--message-size=%d" % r.randrange(9), "--bytes-size=%d" % r.randrange(9)]
        for _ in range(r.randrange(4)):
            t = text(c)
            if r.random() < 0.5:
                t = r.choice(["-", "--", "--verbose", "--message-size=", "--x="]) + t
            a.insert(r.randrange(len(a) + 1), t)
        out.append(a)
    return out


def measured(c, basic, more, n):
    """Reports over sizes, repeats and clock speeds; and the time between readings of the clock."""
    r = c.rng
    out = []
    for _ in range(n):
        e = r.choice(basic if r.random() < 0.5 or not accelerated() else more) if r.random() < 0.8 else expression(c, basic)
        if e.startswith("-"):
            e = "*" + e
        g = [x for x in GROUPS if e.startswith(x)] or list(GROUPS)
        # (Many repeats only where a call is cheap.)
        few = r.random() < 0.7
        a = ["--verbose"] if r.random() < 0.3 else []
        if e not in basic:
            a.append("--advanced") if accelerated() else None
        a += ["benchmark", "--repeats-time=%s" % r.choice(["0", "1", "2", "3", "7", "10"] if few or len(g) > 1 else ["1000", "1024", "9999"]), "--repeats-warm=%d" % r.randrange(3)]
        if r.random() < 0.6:
            a.append("--cpu-clock=%s" % r.choice(["0", "1", "2400", "4999", "1000000", "18446744073709", "9999999999999", "3", "0004"]))
        a += ["primitive", e]
        for p in sorted({p for x in g for p in GROUPS[x]}):
            v = r.choice([0, 0, 1, 2, 15, 16, 17, 20, 32, 63, 64, 65, 100, r.randrange(400)] + ([1000, 4097] if few else []))
            if p == "iterations":
                v = r.choice([0, 1, 2, 5])
            if p == "key-size" and any(x.startswith("kdf") for x in g):
                v = r.choice([0, 1, 20, 64, 65, 200, 6000 if few and len(g) == 1 and g[0] == "kdf-hkdf" else 70])
            a.append("--%s=%d" % (p, v))
        out.append((a, r.choice([0, 0, 1, 2, 40, 999, 1000, 12345, 1000000, 123456789, 5000000000, 987654321012])))
    return out


def huge(c):
    """Sizes no memory suffices for."""
    out = []
    for e, ps in (("codec-base-16-encode", ["bytes-size"]), ("codec-base-64-*", ["bytes-size"]), ("hash-*", ["message-size"]),
                  ("mac-poly-1305", ["message-size", "key-size"]), ("mac-hmac-sha-2-512", ["key-size", "message-size"]),
                  ("kdf-hkdf-hmac-sha-2-256", ["ikm-size", "salt-size", "info-size", "key-size"]),
                  ("kdf-pbkdf-2-hmac-sha-2-256", ["ikm-size", "salt-size", "key-size", "iterations"]),
                  ("cipher-*", ["bytes-size"]), ("aead-*", ["aad-size", "bytes-size"])):
        for p in ps:
            if p == "iterations":
                continue
            for v in ("18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808", "4611686018427387904",
                      "13835058055282163712", "6148914691236517205", "100000000000000000", "18446744073709551616"):
                out.append(["benchmark", "--repeats-time=1", "--repeats-warm=0", "primitive", e] + ["--%s=%s" % (q, v if q == p else "1") for q in ps])
    return out


def check(c):
    design(c, "CliDesign")
    # A build of its own with the sanitizers of the compiler, too.
    exe, san = parallel([lambda: build_app(c), lambda: build(
        c, "milo_san", [os.path.join(REPO, "app/main.cpp"), "clock.cpp"], "-O1", ["-I" + os.path.join(REPO, "app/include")],
        ["-w", "-rdynamic", "-fsanitize=address", "-fno-sanitize-recover=all"], what="the application")])
    basic, more = names(c, exe, False), names(c, exe, True)
    if not basic or not more:
        raise Violation("the list of benchmarks is empty")
    cases = [(a, 40) for a in strange(c, 1200 if c.quick else 30000) if harmless(a)]
    conform_app(c, exe, cases, "consistency", "strange")
    # Every character, in every kind of place.
    chars = []
    for i in range(1, 128):
        x = chr(i)
        chars.append((["--verbose", "benchmark", "primitive", "nothing", x, "a" + x + "b", "--" + x + "=" + x, x + x], 1))
        chars.append((["--verbose", "--x=" + x, "benchmark", "--y" + x, "primitive", "n" + x], 1))
        chars.append(([x], 1))
    conform_app(c, exe, chars, "consistency", "characters")
    conform_app(c, exe, measured(c, basic, more, 1500 if c.quick else 30000), "consistency", "metrics")
    conform_app(c, exe, [(a, 3) for a in huge(c)], "consistency", "huge")
    c.rng.shuffle(cases)
    conform_app(c, san, cases[:150 if c.quick else 3000] + measured(c, basic, more, 150 if c.quick else 3000), "consistency", "sanitized")
    c.assumptions += ["The clock of the application is replaced at link time: every reading is later by a chosen number of nanoseconds.",
                      "Sizes between 10^8 and 10^16 bytes, which may or may not be available, are not tried."]
