"""C20: literals denote the bytes they spell; programs of several translation units."""
from mv.core import *
from mv.plans import *
from mv.constant import constant, program, spell, PUBLIC
from mv import types
from checks.c15 import ALL, alg_of
from checks.c17 import sizes


def literals(c, n, compiletime=False):
    """Sessions of literals: their spellings are the streams."""
    w = World()
    r = c.rng
    w.stream(b"x")
    ss = []

    def text(b):
        m = w.stream(spell(r, b).encode())
        return (m, 0, w.size(m))

    def add(k, a, raw=False):
        if not ss or len(ss[-1].events) > 6:
            ss.append(Session(group=len(ss) % JOBS))
        ss[-1].lit(k, a, raw)
    # Every byte value, every escape; embedded and trailing null characters.
    for k in ("b", "bv", "c", "cv"):
        for i in range(0, 256, 32):
            add(k, text(bytes(range(i, i + 32))))
        for b in (b"", b"\0", b"a\0b", b"\0\0a", b"a\0", b"\0" * 9, b"\xff\0\xff"):
            add(k, text(b))
        m = w.stream(bytes(range(32, 127)).replace(b")~~\"", b"") + b"\\n\\0\\x41 \n\"quoted\"")
        add(k, (m, 0, w.size(m)), True)
    hexes = b"0123456789abcdefABCDEF"
    digits = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    for i in range(n):
        k = r.choice(["b", "bv", "c", "cv"])
        add(k, text(pattern(r, r.randrange(30)) if r.random() < 0.5 else r.randbytes(r.randrange(30))))
        t = bytearray(r.choice(hexes) for _ in range(r.choice([0, 1, 2, 3, 4, 8, 31, 32, r.randrange(40)])))
        if not compiletime and t and r.random() < 0.4:
            t[r.randrange(len(t))] = r.choice([0, 32, 71, 103, 47, 58, 64, 96, 128 + 48, 255, r.randrange(256)])
        add("base_16", text(bytes(t)))
        t = bytearray(r.choice(digits) for _ in range(4 * r.randrange(9)))
        e = r.choice([0, 0, 1, 2])
        if t and e:
            t[-e:] = b"=" * e
        if not compiletime and r.random() < 0.5:
            if t and r.random() < 0.7:
                t[r.randrange(len(t))] = r.choice([0, 61, 45, 95, 32, 128 + 65, r.randrange(256)])
            else:
                t = t[:r.randrange(len(t) + 1)] + bytearray(b"=" * r.randrange(4))
        add("base_64", text(bytes(t)))
    return w, ss


def check(c):
    # Literals, over several units of one program, and in constant expressions.
    w, ss = literals(c, 150 if c.quick else 3000)
    program(c, w, [], [ss[i::4] for i in range(4)], "literals", ("-O0", "-O2", "-O1", "-O3"))
    w, ss = literals(c, 40 if c.quick else 600, True)
    constant(c, w, [], ss, "constants")
    # Programs whose units use every primitive, also while static objects are initialized.
    tys = ALL()
    for i in range(1 if c.quick else 6):
        w, ss = sizes(c, tys)
        c.rng.shuffle(ss)
        ss = [s for s in ss if s.events[1]["k"] not in ("pbkdf", "hkdf") or c.rng.random() < 0.4]
        k = 4 if c.quick else 6
        # (Results twice per order of the units.)
        program(c, w, tys, [ss[j::k][:30 if c.quick else 60] for j in range(k)], "units%d" % i, ("-O0", "-O1", "-O2"), 2 if c.quick else 4)
    # Every public header by itself.
    for i in range(1 if c.quick else 4):
        jobs = []
        for h in PUBLIC:
            src = c.path("alone_%s.cpp" % h.replace("/", "_"))
            with open(src, "w") as f:
                f.write("#include <milo/%s>\n#include <milo/%s>\n" % (h, h))
            jobs.append((src, h))
        parallel([lambda s=s, h=h: run_build(["g++", "-std=c++20", "-fsyntax-only", "-w"] + DEF + INC + [s], "a program that includes milo/%s alone" % h) for s, h in jobs])
        break
    c.note(headers=len(PUBLIC))
    c.assumptions += ["The initialization order of units is the order of linking, both ways.",
                      "What a spelling denotes is specified, the compiler's reading of it is part of the checked path."]
