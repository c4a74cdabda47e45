"""Sessions as constant expressions: C++ programs generated from schedules."""
from mv.core import *
from mv.core import collect

HEAD = '#include "constant.h"\n'


class Unfit(Exception):
    """A session that is no constant expression by its nature."""


class Emitter:
    """One session as a structure with its objects and two parts of the calls."""

    def __init__(self, c, world, types, s, i, split=None, runtime=False):
        self.c, self.w, self.types, self.s, self.i, self.split, self.runtime = c, world, types, s, i, split, runtime
        self.kind = {}          # slot -> type name
        self.ready = {}         # slot -> initialized
        self.members = {}       # slot -> type name (one type per slot)
        self.cap = 8
        self.lines = []         # what to print
        self.elements = ["unsigned char", "unsigned char", "char", "signed char"]

    def elem(self):
        return self.c.rng.choice(self.elements)

    def part(self, ref, e=None):
        m, a, n = ref[:3]
        if m > len(self.w.streams):
            raise Unfit("memory")
        if n == 0:
            m, a = 1, 0
        return "part<%s, M%d, %d, %d>" % (e or self.elem(), m, a, n)

    def inp(self, ref, e=None):
        return "%s::ptr, size_t(%d)" % (self.part(ref, e), ref[2])

    def seq(self, ref):
        """A container with the content of an operand."""
        k = self.c.rng.randrange(6 if self.runtime else 5)
        if k >= 4:
            b = self.content(ref)
            return '"%s"%s' % (spell(self.c.rng, b), ["_cv", "_c", "_bv", "_b"][self.c.rng.randrange(2) + 2 * (k == 5)])
        p = self.part(ref, "unsigned char" if k < 2 else "char")
        if k == 0:
            return "%s::value" % p
        if k == 1:
            return "std::vector<unsigned char>(%s::value.begin(), %s::value.end())" % (p, p)
        if k == 2:
            return "std::string(%s::value.begin(), %s::value.end())" % (p, p)
        return "std::string_view(%s::ptr, %d)" % (p, ref[2])

    def content(self, ref):
        m, a, n = ref[:3]
        return self.w.streams[m - 1][a:a + n]

    def either(self, *refs):
        """Operands: all by pointers, or all containers."""
        if self.c.rng.random() < 0.6:
            return ", ".join(self.inp(r) for r in refs)
        return ", ".join(self.seq(r) for r in refs)

    def obj(self, o):
        if o not in self.kind:
            raise Unfit("no object")
        return "(*o%d)" % o

    def need(self, o):
        self.obj(o)
        if not self.ready[o]:
            raise Unfit("uninitialized")
        return "(*o%d)" % o

    def fresh(self, d, name):
        if self.members.setdefault(d, name) != name:
            raise Unfit("types")
        self.kind[d] = name

    def result(self, k, n=0):
        self.cap += n + 4
        self.lines.append(k)
        return ""

    def call(self, ev):
        op = ev["op"]
        n = ev.get("n")
        if op == "new":
            name = next(l.split()[2] for l in self.s.lines if l.startswith("new %d " % ev["o"]))
            self.fresh(ev["o"], name)
            self.ready[ev["o"]] = ev["k"] == "hash"
            return "o%d.emplace();" % ev["o"]
        if op == "drop":
            self.obj(ev["o"])
            del self.kind[ev["o"]]
            return "o%d.reset();" % ev["o"]
        if op in ("cpy", "mov"):
            x = self.need(ev["o"])
            if ev["d"] == ev["o"]:
                raise Unfit("self")
            self.fresh(ev["d"], self.kind[ev["o"]])
            self.ready[ev["d"]] = True
            return "o%d.emplace(%s);" % (ev["d"], x if op == "cpy" else "std::move(%s)" % x)
        if op == "asg":
            x = self.need(ev["o"])
            d = self.obj(ev["d"])
            if self.kind[ev["d"]] != self.kind[ev["o"]]:
                raise Unfit("types")
            self.ready[ev["d"]] = True
            return "%s = %s;" % (d, x)
        if op == "rst":
            return "%s.initialize();" % self.obj(ev["o"])
        if op in ("key", "cip", "aead", "hkdf", "pbk"):
            x = self.obj(ev["o"])
            self.ready[ev["o"]] = True
            refs = [ev[k] for k in "abc" if k in ev]
            tail = ", uint32_t(%d)" % ev["i"] if op == "pbk" else ""
            if op in ("hkdf", "pbk"):
                e = ", ".join(self.inp(r) for r in refs)        # (objects keep views)
            else:
                e = self.either(*refs)
            return "%s.initialize(%s%s);" % (x, e, tail)
        if op in ("upd", "aad"):
            return "%s.%s(%s);" % (self.need(ev["o"]), "update" if op == "upd" else "aad", self.either(ev["a"]))
        if op in ("dig", "der"):
            f = "digest" if op == "dig" else "derive"
            x = self.need(ev["o"])
            if ev.get("st"):
                raise Unfit("memory")
            if "plain" in ev:
                if ev["plain"] % 2:
                    t = "{ auto b = %s.digest(); R.bytes(b.size(), b.data(), b.size()); }" % x
                else:
                    t = "{ room<%s, 64> b; auto r = %s.digest(b.p()); R.bytes(r, b.p(), 64); }" % (self.elem(), x)
            elif self.c.rng.random() < 0.6 or n > 64:
                e = self.elem()
                t = "{ room<%s, %d> b; auto r = %s.%s(b.p(), size_t(%d)); R.bytes(r, b.p(), %d); }" % (e, n, x, f, n, n)
            else:
                t = "{ std::vector<unsigned char> b; auto r = %s.%s(b, size_t(%d)); R.bytes(r, b.data(), b.size()); }" % (x, f, n)
            return t + self.result("s", 64 if "plain" in ev else n)
        if op == "siz":
            o = self.obj(ev["o"])
            t = "sizes_of(R, %s);" % o
            return t + self.result("nnnn")
        if op in ("enc", "dec"):
            if ev.get("st"):
                raise Unfit("memory")
            f = "encrypt" if op == "enc" else "decrypt"
            x = self.need(ev["o"])
            k = ev["a"][2]
            r = self.c.rng.random()
            if r < 0.3:
                t = "{ auto b = %s::value; auto r = %s.%s(b.data(), size_t(%d), b.data()); R.bytes(r, b.data(), %d); }" % (self.part(ev["a"]), x, f, k, k)
            elif r < 0.7:
                e = self.elem()
                t = "{ room<%s, %d> b; auto r = %s.%s(%s, b.p()); R.bytes(r, b.p(), %d); }" % (e, k, x, f, self.inp(ev["a"]), k)
            else:
                t = "{ std::vector<unsigned char> b; auto r = %s.%s(%s, b); R.bytes(r, b.data(), b.size()); }" % (x, f, self.seq(ev["a"]))
            return t + self.result("s", k)
        if op == "ver":
            t = "{ milo::error e; %s.verify(%s, e); R.put(verdict_of(e)); }" % (self.need(ev["o"]), self.inp(ev["a"]))
            return t + self.result("n")
        if op in ("seal", "open"):
            name = next(l for l in self.s.lines if l.startswith(op)).split()[1]
            I = "mp::" + self.types[name][1]
            refs = [ev[k] for k in "abcd"]
            if ev.get("st") or ev.get("su"):
                raise Unfit("memory")
            if op == "seal":
                t = "{ room<%s, %d> b; room<%s, 16> g; auto [r, q] = mp::aead::encrypt<%s>(%s, b.p(), g.p()); R.bytes(r, b.p(), %d); R.bytes(q, g.p(), 16); }" % (
                    self.elem(), ev["d"][2], self.elem(), I, ", ".join(self.inp(r) for r in refs), ev["d"][2])
                return t + self.result("sb", ev["d"][2] + 20)
            t = "{ room<%s, %d> b; milo::error e; auto r = mp::aead::decrypt<%s>(%s, b.p(), e); R.put(verdict_of(e)); R.bytes(r, b.p(), %d); }" % (
                self.elem(), ev["d"][2], I, ", ".join(self.inp(r) for r in refs + [ev["t"]]), ev["d"][2])
            return t + self.result("ns", ev["d"][2])
        if op in ("cenc", "cdec", "cesz", "cdsz"):
            K = "mp::codec::apie<mp::codec_%s>" % ev["k"]
            k = ev["a"][2]
            if op in ("cesz", "cdsz"):
                return "R.put(long(%s::%s(%s)));" % (K, "encode_size" if op == "cesz" else "decode_size", self.either(ev["a"])) + self.result("n")
            r = self.c.rng.random()
            if op == "cenc":
                z = 2 * k if ev["k"] == "base_16" else (k + 2) // 3 * 4
                if r < 0.6:
                    t = "{ room<%s, %d> b; auto r = %s::encode(%s, b.p()); R.bytes(r, b.p(), %d); }" % (self.elem(), z, K, self.inp(ev["a"]), z)
                else:
                    t = "{ std::string b; auto r = %s::encode(%s, b); R.bytes(r, b.data(), b.size()); }" % (K, self.seq(ev["a"]))
                return t + self.result("s", z)
            z = (k + 1) // 2 if ev["k"] == "base_16" else (k + 3) // 4 * 3
            if r < 0.6:
                t = "{ room<%s, %d> b; milo::error e; auto r = %s::decode(%s, b.p(), e); R.bytes(r, b.p(), %d); R.put(code_of(e)); }" % (self.elem(), z, K, self.inp(ev["a"]), z)
            else:
                t = "{ std::string b; milo::error e; auto r = %s::decode(%s, b, e); R.bytes(r, b.data(), b.size()); R.put(code_of(e)); }" % (K, self.seq(ev["a"]))
            return t + self.result("se", z)
        if op == "lit":
            k = ev["k"]
            t = self.content(ev["a"]).decode("latin-1")
            t = 'R"~~(%s)~~"_%s' % (t, k) if ev["raw"] else '"%s"_%s' % (t, k)
            if not self.runtime and k in ("b", "bv"):
                raise Unfit("no constant expression")
            z = ev["a"][2]
            if k.startswith("base") and not self.runtime:
                self.result("se", z)
                return "{ auto x = %s; R.bytes(x.size(), x.data(), %d); R.put(0); }" % (t, z)      # (of well-formed ones)
            self.result("se", z)
            if k.startswith("base"):
                return ("try { auto x = %s; R.bytes(x.size(), x.data(), %d); R.put(0); } "
                        "catch (const milo::error& e) { R.bytes(0, M1.data(), 0); R.put(code_of(e)); }" % (t, z))
            if k in ("b", "c") and self.runtime:
                # A value of its own, each time.
                return ("for (int q = 0; q < 2; q += 1) { auto x = %s; if (q) { R.bytes(x.size(), x.data(), %d); R.put(0); } "
                        "else for (auto& y: x) y ^= 1; }" % (t, z))
            return "{ auto x = %s; R.bytes(x.size(), x.data(), %d); R.put(0); }" % (t, z)
        raise Unfit(op)

    def cuts(self):
        """After which calls the objects can stay for the run time."""
        r = []
        for k, ev in enumerate(self.s.events[:-1]):
            if ev is not None:
                self.call(ev)
                if self.kind and all(self.ready[o] for o in self.kind):
                    r.append(k)
        return r

    def source(self):
        one, two, kinds = [], [], []
        for k, ev in enumerate(self.s.events):
            if ev is None:
                kinds.append("")
                continue
            m = len(self.lines)
            t = self.call(ev)
            (one if self.split is None or k <= self.split else two).append("        " + t)
            kinds.append(self.lines[-1] if len(self.lines) > m else "")
        self.kinds = kinds
        decl = ["    std::optional<%s> o%d;" % (self.wrapped(n), o) for o, n in self.members.items()]
        i = self.i
        out = ["struct S%d" % i, "{", "    record<%d> R;" % self.cap] + decl
        out += ["    constexpr void one()", "    {"] + one + ["    }"]
        out += ["    constexpr void two()", "    {"] + two + ["    }", "};"]
        if self.runtime:
            run = ["    { S%d s; s.one(); s.two(); printer<%d> p{s.R, out};" % (i, self.cap)]
        elif self.split is None:
            out += ["constexpr auto r%d = [] { S%d s; s.one(); s.two(); return s.R; }();" % (i, i)]
            run = ["    { printer<%d> p{r%d, out};" % (self.cap, i)]
        else:
            out += ["constinit S%d s%d = [] { S%d s; s.one(); return s; }();" % (i, i, i)]
            run = ["    { s%d.two(); printer<%d> p{s%d.R, out};" % (i, self.cap, i)]
        run += ['      p.line("%s");' % k for k in kinds] + ["    }"]
        return "\n".join(out) + "\n", "\n".join(run) + "\n"

    def wrapped(self, name):
        kind, cpp = self.types[name]
        return "mp::%s::apie<mp::%s>" % ({"hkdf": "kdf", "pbkdf": "kdf"}.get(kind, kind), cpp)


def spell(rng, b):
    """The content of a string literal for these bytes."""
    simple = {10: "n", 9: "t", 13: "r", 7: "a", 8: "b", 12: "f", 11: "v", 92: "\\", 39: "'", 34: '"', 63: "?"}
    out = ""
    glue = False        # whether a hexadecimal digit would continue the escape before
    for i, x in enumerate(b):
        digit = chr(x) in "0123456789abcdefABCDEF"
        r = rng.random()
        if 32 <= x < 127 and x not in (34, 92, 63) and r < 0.8 and not (glue and digit):
            out += chr(x)
            glue = False
        elif x in simple and r < 0.9:
            out += "\\" + simple[x]
            glue = False
        elif r < 0.5:
            out += "\\x" + rng.choice(["%02x", "%x", "%X", "%03x"]) % x
            glue = True
        else:
            # (Three digits, or what follows would count.)
            n = b[i + 1] if i + 1 < len(b) else 0
            out += "\\" + ("%03o" if 48 <= n < 56 or rng.random() < 0.5 else "%o") % x
            glue = False
    return out


def emit(c, world, tys, sessions, split):
    """split: whether the objects are to go on at run time.  Returns (sessions that can be constant expressions, program)."""
    table = {n: (k, t) for k, n, t in tys}
    fit, defs, runs = [], [], []
    for s in sessions:
        e = Emitter(c, world, table, s, len(fit))
        try:
            if split:
                at = Emitter(c, world, table, s, len(fit)).cuts()
                if not at:
                    continue
                e.split = c.rng.choice(at)
            d, r = e.source()
        except Unfit:
            continue
        fit.append(s)
        defs.append(d)
        runs.append(r)
    streams = ["constexpr std::array<unsigned char, %d> M%d{%s};" % (max(1, len(b)), i + 1, ",".join(map(str, b)) or "0")
               for i, b in enumerate(world.streams)]
    return fit, (HEAD + "\n".join(streams) + "\n" + "".join(defs) + "int main()\n{\n    std::string out;\n" + "".join(runs) +
                 "    fwrite(out.data(), 1, out.size(), stdout);\n}\n")


def constant(c, world, tys, sessions, tag, split=False, parts=JOBS, **kw):
    """Compile the sessions (parts at the same time), run the programs, validate what they print."""
    chunks = [l for l in (sessions[i::parts] for i in range(parts)) if l]
    flags = ["-w", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=5000"]
    objs = build_asm(c)

    def one(i, l):
        fit, text = emit(c, world, tys, l, split)
        if not fit:
            return []
        src = c.path("%s_%d.cpp" % (tag, i))
        with open(src, "w") as f:
            f.write(text)
        exe = build(c, "%s_%d" % (tag, i), [src], "-O1", flags=flags, objs=objs, what="a program of constant expressions (%s)" % src)
        p = sh([exe], timeout=60)
        out = p.stdout.decode().split("\n")[:-1]
        end = {"op": "crash", "what": "status %d" % p.returncode} if p.returncode else None
        return collect(fit, out, end, tag)
    rec = [x for l in parallel([lambda i=i, l=l: one(i, l) for i, l in enumerate(chunks)]) for x in l]
    for r in validate(c, world, rec, tag, **kw):
        # The program is deterministic, TLC is asked again.
        again = validate(c, world, [(r["session"], r["events"])], tag + "_again", shards=1, **kw)
        if again:
            d = describe(again[0])
            c.violation("%s: %s: %s" % (tag, d["what"], json.dumps(d["call"])[:300]), d)
    if rec:
        s, evs = rec[len(rec) // 2]
        c.sample([short(e) for e in evs[:12]])
    c.note(events=sum(len(e) for _, e in rec), **{"sessions_" + tag: len(rec)})
    return len(rec)


PUBLIC = ["container.h", "def.h", "error.h", "internal.h", "literal.h", "meta.h", "option.h", "primitive/aead/apie.h", "primitive/aead/chacha.h",
          "primitive/cipher/apie.h", "primitive/cipher/chacha.h", "primitive/codec/apie.h", "primitive/codec/base.h",
          "primitive/hash/apie.h", "primitive/hash/sha.h", "primitive/kdf/apie.h", "primitive/kdf/hkdf.h", "primitive/kdf/pbkdf.h",
          "primitive/mac/apie.h", "primitive/mac/hmac.h", "primitive/mac/poly.h", "primitive/detail/alias.h"]


def program(c, world, tys, units, tag, opts=("-O1",), orders=2, extra=(), **kw):
    """A program of several translation units: every list of sessions is one, executed from main
    and, before, from the initialization of a static object of another unit."""
    table = {n: (k, t) for k, n, t in tys}
    flags = ["-w"]
    fit = []
    jobs = []
    for u, l in enumerate(units):
        mine, defs, runs = [], [], []
        for s in l:
            e = Emitter(c, world, table, s, len(mine), runtime=True)
            try:
                d, r = e.source()
            except Unfit:
                continue
            mine.append(s)
            defs.append(d)
            runs.append(r)
        fit.append(mine)
        used = "".join(defs)
        streams = ["constexpr std::array<unsigned char, %d> M%d{%s};" % (max(1, len(b)), i + 1, ",".join(map(str, b)) or "0")
                   for i, b in enumerate(world.streams) if i == 0 or "M%d," % (i + 1) in used]
        # The public headers in an order of its own.
        hs = list(PUBLIC)
        c.rng.shuffle(hs)
        v = (u + 1) % len(units)
        text = ("".join("#include <milo/%s>\n" % h for h in hs) + HEAD + "namespace\n{\n" + "\n".join(streams) + "\n" + used + "}\n" +
                "std::string unit_%d()\n{\n    std::string out;\n%s    return out;\n}\n" % (u, "".join(runs)) +
                "std::string unit_%d();\nstatic const std::string early = unit_%d();\n" % (v, v) +
                "const std::string& early_%d() { return early; }\n" % u)
        src = c.path("%s_u%d.cpp" % (tag, u))
        with open(src, "w") as f:
            f.write(text)
        jobs.append((src, opts[u % len(opts)]))
    n = len(units)
    text = "#include <cstdio>\n#include <string>\n" + "".join("std::string unit_%d();\nconst std::string& early_%d();\n" % (u, u) for u in range(n))
    text += "int main()\n{\n    std::string s;\n" + "".join("    s += early_%d(); s += unit_%d();\n" % (u, u) for u in range(n))
    text += "    fwrite(s.data(), 1, s.size(), stdout);\n}\n"
    src = c.path("%s_main.cpp" % tag)
    with open(src, "w") as f:
        f.write(text)
    jobs.append((src, "-O1"))

    def comp(j):
        run_build(["g++", "-std=c++20", j[1], "-c"] + flags + DEF + INC + ["-I" + HARNESS, j[0], "-o", j[0][:-4] + ".o"], "a program of several translation units (%s)" % j[0])
        return j[0][:-4] + ".o"
    objs = parallel([lambda j=j: comp(j) for j in jobs])
    rec = []
    for k in range(orders):
        order = objs[:]
        if k == 1:
            order.reverse()
        elif k:
            c.rng.shuffle(order)
        exe = link(c, "%s_%d" % (tag, k), order)

        def run():
            try:
                p = sh([exe], timeout=60)
            except subprocess.TimeoutExpired:
                return None, {"op": "hang", "what": "no answer within 60 s"}
            if p.returncode:
                return None, {"op": "crash", "what": "status %d when linked in the order %s" % (p.returncode, " ".join(map(os.path.basename, order)))}
            return p.stdout.decode().split("\n")[:-1], None
        out, end = run()
        if end:
            out, end = run()
        seq = [s for u in range(n) for s in fit[(u + 1) % n] + fit[u]]
        if end:
            c.violation("%s: %s" % (tag, end["what"]), end)
            continue
        rec += collect(seq, out, None, tag)
    for r in validate(c, world, rec, tag, **kw):
        again = validate(c, world, [(r["session"], r["events"])], tag + "_again", shards=1, **kw)
        if again:
            d = describe(again[0])
            c.violation("%s: %s: %s" % (tag, d["what"], json.dumps(d["call"])[:300]), d)
    if rec:
        s, evs = rec[len(rec) // 2]
        c.sample([short(e) for e in evs[:12]])
    c.note(events=sum(len(e) for _, e in rec), **{"sessions_" + tag: len(rec)})
