"""Common machinery of the checks: building drivers from /repo, running them on call schedules,
validating what they recorded with TLC, and reporting."""

import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MILO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

INC = ["-I" + os.path.join(REPO, "src")]
DEF = ["-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_UNIX=true"]
ASM_DEF = ["-DMILO_INTERNAL_ABI_UNIX"]


class Violation(Exception):
    """The property does not hold; what: a short text, detail: anything worth keeping."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Broken(Exception):
    """The check itself failed."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = os.path.join(os.environ.get("MILO_BUILD", os.path.join(VERIF, "build")), pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.lock = threading.Lock()

    quick = property(lambda self: self.tier == "quick")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def note(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, int) and not isinstance(v, bool) else v

    def sample(self, x, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(x)

    def add(self, states, transitions, traces=0):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.traces += traces

    def violation(self, what, detail=None):
        with self.lock:
            self.violations.append((what, detail))

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict(self.cov, states=self.states, transitions=self.transitions,
                             traces_validated_against_impl=self.traces,
                             samples=self.samples[:8]),
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if self.violations:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s.json" % self.pid)
            with open(p, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations], f, indent=1, default=str)
            for w, d in self.violations[:5]:
                print("violation: %s" % w)
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        print("%s: ok, %d states, %d traces, %.1f s" % (self.pid, self.states, self.traces,
                                                        time.time() - self.t0), flush=True)
        if not self.violations:
            shutil.rmtree(self.dir, ignore_errors=True)
        return 0


def load_known(pid):
    r = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r.append(m.group(2).strip())
    except OSError:
        pass
    return r


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except Violation as v:
        c.violation(v.what, v.detail)
    except Broken as b:
        log("%s: the check itself failed: %s" % (pid, b))
        return 2
    return c.finish()


# ---------------------------------------------------------------------------------------------
# Building.

def parallel(fns, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


def asm_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".asm"):
                r.append(os.path.join(d, f))
    return sorted(r)


def run_build(cmd, what):
    """A build step of the public interface or of the sources of the library; it failing twice
    means that the library cannot be used in this way."""
    for attempt in (1, 2):
        r = sh(cmd, timeout=800)
        if r.returncode == 0:
            return
    raise Violation("%s does not build" % what,
                    {"command": " ".join(cmd), "log": r.stderr.decode("utf8", "replace")[-4000:]})


def asm_includes():
    d = os.path.join(REPO, "src/milo/internal/arch/x86_64")
    return ["-i", d + "/", "-i", os.path.join(REPO, "src") + "/"]


def build_asm(c):
    """Assemble every source that stands on its own (others are include files)."""
    out = []
    jobs = []
    for s in asm_sources():
        o = c.path("asm_" + hashlib.md5(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s)[:-4] + ".o")
        out.append((s, o))

    def one(s, o):
        r = None
        for attempt in (1, 2):
            r = sh(["nasm", "-f", "elf64"] + asm_includes() + ASM_DEF + [s, "-o", o], timeout=100)
            if r.returncode == 0:
                return o
        log("not assembled: %s: %s" % (s, r.stderr.decode()[:300]))
        return None
    objs = parallel([lambda s=s, o=o: one(s, o) for s, o in out])
    objs = [o for o in objs if o and os.path.getsize(o) > 0]
    if not objs:
        raise Violation("the assembly sources do not assemble")
    return objs


def windows_objs(c):
    """The assembly built for Windows, behind functions that call it as Windows does."""
    out = []
    for s in asm_sources():
        if "x86_32" in s:
            continue
        o = c.path("win_" + hashlib.md5(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s)[:-4] + ".o")
        cmd = ["nasm", "-f", "elf64", "--gprefix", "win_"] + asm_includes() + ["-DMILO_INTERNAL_ABI_WIND=true", s, "-o", o]
        if sh(["nasm", "-f", "elf64"] + asm_includes() + ASM_DEF + [s, "-o", o]).returncode:
            continue
        run_build(cmd, "the assembly for Windows")
        out.append(o)
    names = set()
    for o in out:
        r = sh(["nm", "-g", "--defined-only", o])
        names |= {l.split()[-1][4:] for l in r.stdout.decode().splitlines() if l.split()[-1].startswith("win_")}
    with open(c.path("win.inc"), "w") as f:
        f.write("".join("SHIM %s\n" % n for n in sorted(names)))
    o = c.path("win_shim.o")
    r = sh(["gcc", "-c", "-I" + c.dir, os.path.join(HARNESS, "win.S"), "-o", o])
    if r.returncode:
        raise Broken("win.S: " + r.stderr.decode()[-1000:])
    return out + [o]


_asm_lock = threading.Lock()


def asm_objs(c):
    with _asm_lock:
        if not hasattr(c, "_asm"):
            c._asm = build_asm(c)
        return c._asm


def build(c, name, sources, opt="-O2", defines=(), flags=(), objs=None, libs=(), what=None):
    """Compile a driver over the sources in /repo; returns the path of the program."""
    exe = c.path(name)
    if objs is None:
        objs = asm_objs(c)
    src = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in sources]
    cmd = (["g++", "-std=c++20", opt] + list(flags) + DEF + INC + ["-I" + HARNESS, "-I" + c.dir] + list(defines) + src +
           list(objs) + ["-o", exe, "-z", "noexecstack", "-lpthread"] + list(libs))
    run_build(cmd, what or "a program over the public interface (%s)" % name)
    return exe


def compile_objs(c, items, opt="-O1", what=None):
    """Objects from (name, source, defines), side by side."""
    def one(name, source, defines):
        o = c.path(name + ".o")
        src = source if os.path.isabs(source) else os.path.join(HARNESS, source)
        run_build(["g++", "-std=c++20", opt, "-c"] + DEF + INC + ["-I" + HARNESS, "-I" + c.dir] + list(defines) + [src, "-o", o],
                  what or "a program over the public interface (%s)" % name)
        return o
    return parallel([lambda i=i: one(*i) for i in items])


def link(c, name, objs):
    exe = c.path(name)
    run_build(["g++"] + list(objs) + asm_objs(c) + ["-o", exe, "-z", "noexecstack", "-lpthread"], "linking a program over the public interface (%s)" % name)
    return exe


def build_interp(c, name, types, opt="-O2", flags=(), objs=None, pre=""):
    """The interpreter of call schedules offering the given types: (kind, name, C++ type)."""
    inc = name + "_types.inc"
    with open(c.path(inc), "w") as f:
        f.write(pre)
        for k, n, t in types:
            f.write('X(%s, "%s", %s)\n' % (k, n, t))
    return build(c, name, ["interp.cpp"], opt, ['-DTYPES="%s"' % inc], flags, objs)


PTR = re.compile(r"^\s*([0-9a-f]+):\t.*\b(BYTE|WORD|DWORD|FWORD|QWORD|TBYTE|XMMWORD|YMMWORD|ZMMWORD) PTR")
WIDTH = {"BYTE": 1, "WORD": 2, "DWORD": 4, "FWORD": 6, "QWORD": 8, "TBYTE": 10, "XMMWORD": 16, "YMMWORD": 32, "ZMMWORD": 64}


def refused_at(r):
    """Where a validation with a variable i stopped (TLC shows the plain variable in a trace of one state)."""
    return int(re.findall(r"^(?:/\\ )?(?:position|i) = (\d+)", r.out, re.M)[-1])


def disassemble(exe):
    r = sh(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", exe], timeout=120)
    if r.returncode:
        raise Broken("objdump: " + r.stderr.decode()[:300])
    return r.stdout.decode("utf8", "replace").split("\n")


def build_elsewhere(c, name, types, opt="-O2", **kw):
    """An interpreter that runs on any processor; returns it and its table of instructions."""
    from mv import isa
    exe = build_interp(c, name, types, opt, ["-no-pie", "-fno-pie", "-DCPU"], **kw)
    t = exe + ".sites"
    kinds = {}
    with open(t, "w") as f:
        for line in disassemble(exe):
            m = re.match(r"^\s*([0-9a-f]+):\t(.*)", line)
            k = isa.extension(m.group(2)) if m else None
            if k:
                f.write("%s %s\n" % (m.group(1), k))
                kinds[k] = kinds.get(k, 0) + 1
    return exe, t, kinds


def build_tracer(c, name, types, opt="-O2", **kw):
    """An interpreter that records accesses to operands; returns it and its table of widths."""
    exe = build_interp(c, name, types, opt, ["-no-pie", "-fno-pie", "-DTRACE"], **kw)
    w = exe + ".widths"
    with open(w, "w") as f:
        for line in disassemble(exe):
            m = PTR.match(line)
            if m:
                f.write("%s %d\n" % (m.group(1), WIDTH[m.group(2)]))
    return exe, w


# ---------------------------------------------------------------------------------------------
# TLC.

class TlcResult:
    pass


def tlc(c, module, cfg=None, env=None, workers=1, heap="2g", timeout=800, args=(), cwd=SPEC, deadlock=None):
    """Run TLC; returns an object with ok, error text, state counts and output."""
    md = c.path("tlc_%s_%d" % (module, time.monotonic_ns()))
    os.makedirs(md)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
           "-DTLA-Library=%s:%s:%s" % (os.path.join(SPEC, "lib"), SPEC, cwd), "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = sh(cmd, timeout=timeout, cwd=cwd, env=e)
        out = p.stdout.decode("utf8", "replace") + p.stderr.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"
        rc = -1
    shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.out = "\n".join(l for l in out.split("\n") if not re.match(r"(Parsing|Semantic|Linting|Computed|Progress)", l))
    r.rc = rc
    m = None
    for m in re.finditer(r"(?<![\d,])([\d,]+) states generated(?: \([\d,]+ s/min\))?, ([\d,]+) distinct states found", out):
        pass
    r.generated = int(m.group(1).replace(",", "")) if m else 0
    r.distinct = int(m.group(2).replace(",", "")) if m else 0
    r.deadlock = "Deadlock reached" in out
    r.violated = bool(re.search(r"Invariant \S+ is violated|property \S+ (is|was) violated|"
                                r"Temporal properties were violated|Assumption .* is false", out))
    r.ok = rc == 0 and "No error has been found" in out
    r.error = None if r.ok else r.out[-6000:]
    return r


def design(c, module, cfg=None, workers=4, timeout=800, heap="4g"):
    """Model check a design module; it must hold (it does not depend on the code)."""
    r = tlc(c, module, cfg, workers=workers, cwd=os.path.join(SPEC, "design"), timeout=timeout, heap=heap)
    if not r.ok:
        raise Broken("design module %s: %s" % (module, r.error[-2000:]))
    c.add(r.distinct, r.generated)
    c.note(**{"design_" + (cfg or module).replace(".cfg", ""): "%d distinct states, complete" % r.distinct})


def generate(c, tag, prologue, alphabet, depth, streams=(), simulate=0, seed=0, timeout=300):
    """Behaviours of MiloGen over the calls of an alphabet (a Session), as lists of indices into it.
    simulate: number of random behaviours instead of all."""
    gp = c.path(tag + ".gen.json")
    with open(gp, "w") as f:
        json.dump({"streams": [[0] * len(b) for b in streams], "prologue": prologue.events[1:],
                   "calls": alphabet.events[1:], "depth": depth}, f)
    args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(seed)] if simulate else []
    r = tlc(c, "MiloGen", env={"GEN": gp}, args=args, timeout=timeout, heap="4g")
    if r.rc != 0:
        raise Broken("%s: generation: %s" % (tag, r.out[-3000:]))
    hs = [json.loads(m.replace('\\', "")) for m in re.findall(r'^"?H (\[.*?\])"?$', r.out, re.M)]
    c.add(r.distinct, r.generated)
    if not hs:
        raise Broken("%s: no behaviours: %s" % (tag, r.out[-2000:]))
    if simulate:
        # Simulation mode prints all successors of a last but one state.
        hs = list({tuple(h[:-1]): h for h in hs}.values())[:simulate]
    c.note(behaviours_generated=len(hs))
    return [[i - 1 for i in h] for h in hs]


def replay(c, prologue, alphabet, hists, group=None, cost=1.0):
    """Sessions for generated behaviours."""
    out = []
    for h in hists:
        s = Session(group)
        s.cost = cost
        s.lines += prologue.lines[1:]
        s.events += prologue.events[1:]
        for i in h:
            s.lines.append(alphabet.lines[i + 1])
            s.events.append(alphabet.events[i + 1])
        out.append(s)
    return out


# ---------------------------------------------------------------------------------------------
# Worlds: the streams and the precomputed tables.

class World:
    def __init__(self):
        self.streams = []
        self.hash = {}
        self.mac = {}
        self.okm = {}
        self.ks = {}
        self.errors = {"base_16": 6, "base_64": 4, "aead": 2}

    def stream(self, b):
        self.streams.append(bytes(b))
        return len(self.streams)

    def size(self, m):
        return len(self.streams[m - 1])

    def use_hash(self, alg, m, n, lazy=False):
        """Digests of all prefixes are worth having, or (lazy) only the chaining values."""
        self.hash[alg, m] = max(n, self.hash.get((alg, m), (0, 0))[0]), lazy

    def use_mac(self, alg, hd, key, m, n):
        k = (alg, hd, ident(key), m)
        self.mac[k] = max(n, self.mac.get(k, 0))

    def use_okm(self, kind, f, ikm, salt, last, n):
        k = (kind, tuple(f), ident(ikm), ident(salt), last if kind == "pbkdf" else ident(last))
        self.okm[k] = max(n, self.okm.get(k, 0))

    def use_ks(self, use, key, iv, n):
        k = (use, ident(key), ident(iv))
        self.ks[k] = max(n, self.ks.get(k, 0))

    def write_streams(self, path):
        with open(path, "wb") as f:
            for s in self.streams:
                f.write(len(s).to_bytes(4, "little") + s)

    def json(self, used):
        """used: predicate over (table, key) - the tables a shard needs."""
        def z(k):
            return [0, 0, 0] if k[2] == 0 else list(k)
        return {
            "streams": [list(s) for s in self.streams],
            "errors": self.errors,
            "hash": [{"alg": a, "m": m, "len": n, "lazy": z} for (a, m), (n, z) in self.hash.items() if used("hash", (a, m))],
            "mac": [{"alg": a, "hd": h, "key": z(k), "m": m, "len": n}
                    for (a, h, k, m), n in self.mac.items() if used("mac", (a, h, k, m))],
            "okm": [dict({"k": k, "alg": f[0], "hd": f[1], "md": f[2], "ikm": z(i), "salt": z(s), "len": n},
                         **({"iter": x} if k == "pbkdf" else {"info": z(x)}))
                    for (k, f, i, s, x), n in self.okm.items() if used("okm", (k, f, i, s, x))],
            "ks": [{"use": u, "key": z(k), "iv": z(v), "len": n}
                   for (u, k, v), n in self.ks.items() if used("ks", (u, k, v))],
        }


def ident(ref):
    m, s, n = ref[:3]
    return (0, 0, 0) if n == 0 else (m, s, n)


# ---------------------------------------------------------------------------------------------
# Sessions: lists of calls.  A call is (line for the driver, event for the specification without
# its results, how to read the results).

DIGEST = {"sha_1_160": 20, "sha_2_224": 28, "sha_2_256": 32, "sha_2_384": 48, "sha_2_512": 64,
          "sha_2_512_224": 28, "sha_2_512_256": 32, "poly_1305": 16, "chacha_20": 0, "chacha_20_poly_1305": 16}
BLOCK = {"sha_1_160": 64, "sha_2_224": 64, "sha_2_256": 64, "sha_2_384": 128, "sha_2_512": 128,
         "sha_2_512_224": 128, "sha_2_512_256": 128, "poly_1305": 16}
HASHES = ["sha_1_160", "sha_2_224", "sha_2_256", "sha_2_384", "sha_2_512", "sha_2_512_224", "sha_2_512_256"]


def rf(ref, place=None):
    m, s, n = ref[:3]
    w = ref[3] if len(ref) > 3 else place or "e"
    return "%d %d %d %s" % (m, s, n, w)


def place(rng):
    """Where to put an operand: up to the end of the memory, or at some alignment."""
    return "e" if rng.random() < 0.6 else "p%d" % rng.randrange(64)


class Session:
    """Builds the script of one session and the events it stands for."""

    def __init__(self, group=None):
        self.lines = ["S"]
        self.events = [None]
        self.group = group
        self.cost = 1.0

    def _add(self, line, ev):
        self.lines.append(line)
        self.events.append(ev)
        return self

    def new(self, o, kind, typ, alg, hd=None, md=None):
        hd = DIGEST[alg] if hd is None else hd
        md = hd if md is None else md
        return self._add("new %d %s" % (o, typ), {"op": "new", "o": o, "k": kind, "alg": alg, "hd": hd, "md": md})

    def drop(self, o): return self._add("drop %d" % o, {"op": "drop", "o": o})
    def cpy(self, d, o): return self._add("cpy %d %d" % (d, o), {"op": "cpy", "d": d, "o": o})
    def mov(self, d, o): return self._add("mov %d %d" % (d, o), {"op": "mov", "d": d, "o": o})
    def asg(self, d, o): return self._add("asg %d %d" % (d, o), {"op": "asg", "d": d, "o": o})
    def rst(self, o): return self._add("rst %d" % o, {"op": "rst", "o": o})
    def key(self, o, a): return self._add("key %d %s" % (o, rf(a)), {"op": "key", "o": o, "a": list(a[:3])})

    def hkdf(self, o, ikm, salt, info):
        return self._add("hkdf %d %s %s %s" % (o, rf(ikm), rf(salt), rf(info)),
                         {"op": "hkdf", "o": o, "a": list(ikm[:3]), "b": list(salt[:3]), "c": list(info[:3])})

    def pbk(self, o, ikm, salt, it):
        return self._add("pbk %d %s %s %d" % (o, rf(ikm), rf(salt), it),
                         {"op": "pbk", "o": o, "a": list(ikm[:3]), "b": list(salt[:3]), "i": it})

    def pair(self, op, o, k, v):
        return self._add("%s %d %s %s" % (op, o, rf(k), rf(v)), {"op": op, "o": o, "a": list(k[:3]), "b": list(v[:3])})

    def upd(self, o, a): return self._add("upd %d %s" % (o, rf(a)), {"op": "upd", "o": o, "a": list(a[:3])})
    def aad(self, o, a): return self._add("aad %d %s" % (o, rf(a)), {"op": "aad", "o": o, "a": list(a[:3])})

    def dig(self, o, n, place="e", st=0):
        return self._add("dig %d %d %s %d" % (o, n, place, st), {"op": "dig", "o": o, "n": n, "st": st})

    def digd(self, o, n, form=0):
        """The digest of the default size, which is to be n."""
        return self._add("digd %d %d" % (o, form), {"op": "dig", "o": o, "n": n, "st": 0, "plain": form})

    def regs(self, o=1): return self._add("regs %d" % o, {"op": "regs"})
    def siz(self, o): return self._add("siz %d" % o, {"op": "siz", "o": o})

    def der(self, o, n, place="e"):
        return self._add("der %d %d %s" % (o, n, place), {"op": "der", "o": o, "n": n})

    def derz(self, o, n, last=64):
        return self._add("derz %d %d %d" % (o, n, last), {"op": "derz", "o": o, "n": n})

    def crypt(self, op, o, a, place="e", st=0):
        return self._add("%s %d %s %s %d" % (op, o, rf(a), place, st),
                         {"op": op, "o": o, "a": list(a[:3]), "st": st})

    def cryptz(self, op, o, u, n, last=64, mode=0):
        return self._add("%s %d %d %d %d %d" % (op, o, u, n, last, mode), {"op": op, "o": o, "u": u, "n": n})

    def ver(self, o, a, form=0):
        return self._add("ver %d %s %d" % (o, rf(a), form), {"op": "ver", "o": o, "a": list(a[:3])})

    def seal(self, typ, k, v, a, p, form=0, st=0, su=0):
        return self._add("seal %s %s %s %s %s %d %d %d" % (typ, rf(k), rf(v), rf(a), rf(p), form, st, su),
                         {"op": "seal", "a": list(k[:3]), "b": list(v[:3]), "c": list(a[:3]), "d": list(p[:3]),
                          "st": st, "su": su})

    def open(self, typ, k, v, a, p, t, form=0):
        return self._add("open %s %s %s %s %s %s %d" % (typ, rf(k), rf(v), rf(a), rf(p), rf(t), form),
                         {"op": "open", "a": list(k[:3]), "b": list(v[:3]), "c": list(a[:3]), "d": list(p[:3]),
                          "t": list(t[:3])})

    # Calls that need no object; f: (name, alg, hd, md).
    def one(self, op, f, refs, n=None, i=None):
        name, alg, hd, md = f
        ev = dict({"op": op, "alg": alg, "hd": hd, "md": md}, **{k: list(r[:3]) for k, r in zip("abc", refs)})
        line = "%s %s %s" % (op, name, " ".join(rf(r) for r in refs))
        if i is not None:
            ev["i"] = i
            line += " %d" % i
        if n is not None:
            ev["n"] = n
            line += " %d" % n
        return self._add(line, ev)

    def xsz(self, op, o, a): return self._add("%s %d %s" % (op, o, rf(a)), {"op": op, "o": o, "a": list(a[:3])})

    def mset(self, m, b):
        return self._add("mset %d %s" % (m, bytes(b).hex() or "-"), {"op": "mset", "m": m, "v": list(b)})

    def mflip(self, m, i, x): return self._add("mflip %d %d %d" % (m, i, x), {"op": "mflip", "m": m, "i": i, "x": x})
    def mcut(self, m, n): return self._add("mcut %d %d" % (m, n), {"op": "mcut", "m": m, "n": n})

    def madd(self, m, b):
        return self._add("madd %d %s" % (m, bytes(b).hex() or "-"), {"op": "madd", "m": m, "v": list(b)})

    def cenc(self, k, a, place="e"):
        return self._add("cenc %s %s %s" % (k, rf(a), place), {"op": "cenc", "k": k, "a": list(a[:3])})

    def cdec(self, k, a, cap, form=0, place="e"):
        return self._add("cdec %s %s %s %d %d" % (k, rf(a), place, form, cap),
                         {"op": "cdec", "k": k, "a": list(a[:3]), "form": form})

    def lit(self, k, a, raw=False):
        """A literal with that suffix, spelled as the content of a."""
        return self._add("lit %s %s %d" % (k, rf(a), raw), {"op": "lit", "k": k, "a": list(a[:3]), "raw": raw})

    def cencz(self, k, u, n, last=64):
        return self._add("cencz %s %d %d %d" % (k, u, n, last), {"op": "cencz", "k": k, "u": u, "n": n, "t": last})

    def ceszz(self, k, u, n):
        return self._add("ceszz %s %d %d" % (k, u, n), {"op": "ceszz", "k": k, "u": u, "n": n})

    def cdecz(self, k, u, n, v, form=0, last=64):
        return self._add("cdecz %s %d %d %s %d %d" % (k, u, n, bytes(v).hex() or "-", last, form),
                         {"op": "cdecz", "k": k, "u": u, "n": n, "v": list(v), "t": last})

    def cdszz(self, k, u, n, v):
        return self._add("cdszz %s %d %d %s" % (k, u, n, bytes(v).hex() or "-"), {"op": "cdszz", "k": k, "u": u, "n": n, "v": list(v)})

    def cesz(self, k, a): return self._add("cesz %s %s" % (k, rf(a)), {"op": "cesz", "k": k, "a": list(a[:3])})
    def cdsz(self, k, a): return self._add("cdsz %s %s" % (k, rf(a)), {"op": "cdsz", "k": k, "a": list(a[:3])})


class RoomSession(Session):
    """Calls with a form and a point at which memory is refused."""

    def __init__(self, give, group=None):
        super().__init__(group)
        self.give = give

    def _add(self, line, ev):
        op, _, rest = line.partition(" ")
        return super()._add("%s %d %d %s" % (op, *self.give(op, ev), rest), ev)


RESULTS = {"lit", "dig", "der", "enc", "dec", "cenc", "cdec", "1hash", "1mac", "1hkdf", "1pbk", "1enc", "1dec"}
NUMBERS = {"ver", "cesz", "cdsz", "esz", "dsz"}


def unhex(s):
    return [] if s == "-" else list(bytes.fromhex(s))


def merge(ev, res):
    """The event with the results the driver printed, or an event that no specification admits."""
    ev = dict(ev)
    op = ev["op"]
    f = res.split()
    acc = [x[1:].split(":") for x in f if x.startswith("@")]
    if acc:
        ev["acc"] = [{"g": g, "k": k, "from": int(a), "to": int(b)} for g, k, a, b in acc]
        f = [x for x in f if not x.startswith("@")]
        res = " ".join(f)
    for x in f:
        if x.startswith("^"):
            ev["cls"] = [] if x == "^-" else x[1:].split(",")
    f = [x for x in f if not x.startswith("^")]
    res = " ".join(f)
    if "$" in f:
        i = f.index("$")
        q = f[i + 1:]
        ev["room"] = dict(zip(("form", "room", "need", "asked", "at", "refused", "plain"), q[:1] + [int(x) for x in q[1:]]))
        f = f[:i]
        if f == ["~"]:
            return {"op": "refused", "room": dict(ev["room"], asked=0), "call": ev["op"]}
        res = " ".join(f)
    marks = [x for x in f if x.startswith("!")]
    if marks:
        return {"op": "fault", "call": ev, "what": res}
    try:
        if op in RESULTS:
            ev["r"] = int(f[0])
            ev["out"] = [] if f[1] == "-" else list(bytes.fromhex(f[1]))
            for x in f[2:]:
                if x.startswith("n="):
                    ev["n"] = int(x[2:])
            if op in ("cdec", "lit"):
                ev["e"] = int(f[2][1:])
                ev.pop("form", None)
            if not -1 <= ev["r"] < 2 ** 31:
                return {"op": "fault", "call": ev, "what": "returned size %d" % ev["r"]}
        elif op in ("cencz", "cdecz", "ceszz", "cdszz"):
            ev["ru"], ev["rn"] = int(f[0]), int(f[1])
            if op in ("cencz", "cdecz"):
                ev["last"] = unhex(f[2])
            if op == "cdecz":
                ev["e"] = int(f[3][1:])
            if not 0 <= ev["ru"] < 2 ** 31:
                return {"op": "fault", "call": ev, "what": "returned size %d units" % ev["ru"]}
        elif op in ("encz", "decz"):
            ev["ru"], ev["rn"] = int(f[0]), int(f[1])
            ev["last"] = list(bytes.fromhex(f[2]))
            if not 0 <= ev["ru"] < 2 ** 31:
                return {"op": "fault", "call": ev, "what": "returned size %d units" % ev["ru"]}
        elif op == "seal":
            ev["r"] = int(f[0])
            ev["out"] = unhex(f[1])
            ev["tag"] = unhex(f[2])
        elif op == "open":
            ev["r"], ev["n"] = int(f[0]), int(f[1])
            ev["out"] = unhex(f[2])
        elif op == "regs":
            ev["v"] = [int(x) for x in f]
        elif op == "siz":
            ev["r"] = [int(x) for x in f]
            if len(f) != 4 or max(ev["r"]) >= 2 ** 31:
                return {"op": "fault", "call": ev, "what": "reported sizes " + res}
        elif op == "derz":
            ev["r"] = int(f[0])
            ev["last"] = list(bytes.fromhex(f[1]))
        elif op in NUMBERS:
            ev["r"] = int(f[0])
            if not 0 <= ev["r"] < 2 ** 31:
                return {"op": "fault", "call": ev, "what": "returned size %d" % ev["r"]}
        elif f:
            return {"op": "fault", "call": ev, "what": res}
    except (IndexError, ValueError):
        return {"op": "fault", "call": ev, "what": "incomprehensible result " + res}
    return ev


def drive(c, exe, world, sessions, tag, timeout=300, wrap=(), extra=(), env=None, keep=False):
    """Run the sessions; returns for each its recorded events, up to the first crash."""
    sp, cp = c.path(tag + ".streams"), c.path(tag + ".script")
    if not (keep and os.path.exists(cp)):
        world.write_streams(sp)
        with open(cp, "w") as f:
            for s in sessions:
                f.write("\n".join(s.lines) + "\n")
    end = None
    try:
        p = sh(list(wrap) + [exe, sp, cp] + list(extra), timeout=timeout, env=dict(os.environ, **env) if env else None)
        out = p.stdout.decode("utf8", "replace").split("\n")
        if out and out[-1] == "":
            out.pop()
        if p.returncode == 3 or p.returncode < 0:
            if out and out[-1].startswith("!crash"):
                end = {"op": "crash", "what": out.pop()}
            else:
                end = {"op": "crash", "what": "status %d" % p.returncode}
        elif p.returncode != 0:
            raise Broken("driver %s: status %d: %s" % (tag, p.returncode, p.stderr.decode()[-500:]))
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf8", "replace").split("\n")[:-1]
        end = {"op": "hang", "what": "no answer within %d s" % timeout}
    rec = collect(sessions, out, end, tag)
    if not keep:
        os.remove(cp)
    return rec


def collect(sessions, out, end, tag):
    """The events of sessions with the results that the driver printed; end: how it ended early."""
    rec = []
    i = 0
    for s in sessions:
        evs = []
        for ev in s.events:
            if i >= len(out):
                if end is None:
                    raise Broken("driver %s: short output" % tag)
                if ev is not None:
                    evs.append(dict(end, call=ev))
                elif not evs:
                    evs.append(dict(end))
                rec.append((s, evs))
                return rec
            if ev is not None:
                ev = merge(ev, out[i])
                if ev["op"] != "refused" and ev.get("room", {}).get("refused"):
                    evs.append({"op": "refused", "room": dict(ev["room"], asked=0), "call": ev["op"]})
                evs.append(ev)
            i += 1
        rec.append((s, evs))
    if i != len(out):
        raise Broken("driver %s: long output" % tag)
    return rec


def drive_threads(c, exe, world, sessions, tag, threads, timeout=120, press=0):
    """Run the sessions in that many threads of one process, each of them once or for that many
    milliseconds; then every distinct result of a session is a record of its own."""
    sp = c.path(tag + ".streams")
    world.write_streams(sp)
    chunks = [sessions[i::threads] for i in range(threads)]
    names = []
    for i, l in enumerate(chunks):
        names.append(c.path("%s_%d.script" % (tag, i)))
        with open(names[-1], "w") as f:
            for s in l:
                f.write("\n".join(s.lines) + "\n")
        if os.path.exists(names[-1] + ".out"):
            os.remove(names[-1] + ".out")
    end = None
    try:
        p = sh([exe, sp] + names, timeout=timeout, env=dict(os.environ, PRESS=str(press)) if press else None)
        if p.returncode == 5:
            raise Broken("driver %s: %s" % (tag, p.stderr.decode()[-500:]))
        if p.returncode:
            end = {"op": "crash", "what": "status %d" % p.returncode}
    except subprocess.TimeoutExpired:
        end = {"op": "hang", "what": "no answer within %d s" % timeout}
    rec = []
    for l, n in zip(chunks, names):
        if end:
            rec.append((l[0], [dict(end)]))
            continue
        out = open(n + ".out").read().split("\n")[:-1]
        if not press:
            rec += collect(l, out, None, tag)
            continue
        at = -1
        one = []
        for x in out:
            if x == "=":
                rec += collect([l[at]], one, None, tag)
                one = []
            elif x[:1] == "=":
                at += 1
                c.note(repetitions=int(x[1:]))
            else:
                one.append(x)
        if at + 1 != len(l):
            raise Broken("driver %s: short output" % tag)
    return rec


def plain(ev):
    """Whether the specification can have an event of this kind at all."""
    return ev["op"] not in ("fault", "crash", "hang")


def validate(c, world, rec, tag, shards=JOBS, module="MiloTrace", heap="2g", timeout=800, spread=None):
    """Check recorded sessions against Milo.  Sessions are spread over TLC processes by their group
    (sessions of one group share precomputed tables).  Returns a list of rejections."""
    groups = {}
    for s, evs in rec:
        groups.setdefault(s.group, []).append((s, evs))
    bins = [[0.0, []] for _ in range(shards)]
    for g, l in sorted(groups.items(), key=lambda x: -sum(s.cost * len(e) for s, e in x[1])):
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(s.cost * len(e) for s, e in l) + 200
        b[1].append((g, l))
    bins = [b for b in bins if b[1]]

    def one(n, b):
        gs = [g for g, _ in b[1]]
        lst = [x for _, l in b[1] for x in l]
        return validate_shard(c, world, lst, "%s_%d" % (tag, n), gs, module, heap, timeout)
    return [x for l in parallel([lambda n=n, b=b: one(n, b) for n, b in enumerate(bins)]) for x in l]


def validate_shard(c, world, lst, tag, groups, module, heap, timeout):
    wp, sp = c.path(tag + ".world.json"), c.path(tag + ".sessions.json")
    used = needs(lst)
    with open(wp, "w") as f:
        json.dump(world.json(lambda t, k: (t, k) in used), f)
    with open(sp, "w") as f:
        for s, evs in lst:
            f.write(json.dumps(evs, separators=(",", ":")) + "\n")
    total = sum(len(e) + 2 for _, e in lst)
    r = None
    for attempt in (1, 2):
        r = tlc(c, module, env={"WORLD": wp, "SESSIONS": sp}, heap=heap, timeout=timeout)
        if r.ok and r.distinct == total:
            c.add(r.distinct, r.generated, len(lst))
            os.remove(wp)
            os.remove(sp)
            return []
        if r.ok:
            raise Broken("%s: %d states for %d events" % (tag, r.distinct, total))
        if not r.deadlock:
            if attempt == 2:
                raise Broken("%s: TLC: %s" % (tag, r.error[-3000:]))
            continue
        m = re.findall(r"session = (\d+)\n", r.out)
        p = re.findall(r"position = (\d+)\n", r.out)
        k = int(m[-1]) - 1
        s, evs = lst[k]
        x = re.findall(r'expected = "(.*)"', r.out)
        c.add(r.distinct, r.generated, 0)
        pos = int(p[-1]) - 1
        return [{"session": s, "events": evs, "position": pos, "refused": evs[pos],
                 "expected": x[-1] if x else None}]
    return []


def needs(lst):
    """The tables that the sessions can use."""
    used = set()
    for s, evs in lst:
        st = {}
        for e in evs:
            op = e["op"]
            if op == "new":
                st[e["o"]] = [e["k"], (e["alg"], e["hd"], e["md"]), None]
            elif op in ("cpy", "asg", "mov") and e["o"] in st:
                st[e["d"]] = list(st[e["o"]])
            elif op == "key" and e["o"] in st:
                st[e["o"]][2] = ident(e["a"])
            elif op == "upd" and e["o"] in st:
                k, f, key = st[e["o"]]
                if k == "hash":
                    used.add(("hash", (f[0], e["a"][0])))
                else:
                    used.add(("mac", (f[0], f[1], key, e["a"][0])))
            elif op == "hkdf" and e["o"] in st:
                used.add(("okm", ("hkdf", st[e["o"]][1], ident(e["a"]), ident(e["b"]), ident(e["c"]))))
            elif op == "pbk" and e["o"] in st:
                used.add(("okm", ("pbkdf", st[e["o"]][1], ident(e["a"]), ident(e["b"]), e["i"])))
            elif op == "1hash":
                used.add(("hash", (e["alg"], e["a"][0])))
            elif op == "1mac":
                used.add(("mac", (e["alg"], e["hd"], ident(e["a"]), e["b"][0])))
            elif op == "1hkdf":
                used.add(("okm", ("hkdf", (e["alg"], e["hd"], e["md"]), ident(e["a"]), ident(e["b"]), ident(e["c"]))))
            elif op == "1pbk":
                used.add(("okm", ("pbkdf", (e["alg"], e["hd"], e["md"]), ident(e["a"]), ident(e["b"]), e["i"])))
            elif op in ("1enc", "1dec"):
                used.add(("ks", ("cipher", ident(e["a"]), ident(e["b"]))))
            elif op in ("seal", "open"):
                used.add(("ks", ("aead", ident(e["a"]), ident(e["b"]))))
            elif op in ("cip", "aead"):
                used.add(("ks", ("cipher" if op == "cip" else "aead", ident(e["a"]), ident(e["b"]))))
    return used


def describe(rej):
    e = rej["refused"]
    s = rej["session"]
    return {"what": "call %d of a session of %d calls has no counterpart in the specification" % (rej["position"] + 1, len(rej["events"])),
            "call": e, "expected": rej["expected"], "events": rej["events"][:rej["position"] + 1],
            "script": s.lines[:rej["position"] + 2]}


def conform(c, exe, world, sessions, tag, timeout=300, parts=None, threads=0, extra=(), press=0, **kw):
    """Drive, validate, and report rejections that a second run repeats."""
    if not sessions:
        return
    parts = parts or min(JOBS, max(1, len(sessions) // 8))
    chunk = [sessions[i::parts] for i in range(parts)]

    def run(p, t):
        if threads:
            return drive_threads(c, exe, world, p, t, threads, timeout, press)
        return drive(c, exe, world, p, t, timeout, extra=extra)
    rec = [x for l in parallel([lambda i=i, p=p: run(p, "%s_d%d" % (tag, i)) for i, p in enumerate(chunk)],
                               2 if threads else JOBS) for x in l]
    rej = validate(c, world, rec, tag, **kw)
    for r in rej:
        one = {k: v for k, v in kw.items() if k != "shards"}
        rr = None
        if not threads:
            rr = validate(c, world, run([r["session"]], tag + "_again"), tag + "_again", shards=1, **one)
        # Sessions of one process may influence each other: run all of them again.
        p = next(p for p in chunk if any(s is r["session"] for s in p))
        for attempt in range(8 if threads else 1):
            rr = rr or validate(c, world, run(p, tag + "_again"), tag + "_again", shards=2, **one)
        if rr:
            d = describe(rr[0])
            c.violation("%s: %s: %s" % (tag, d["what"], json.dumps(d["call"])[:300]), d)
        else:
            log("a rejection that did not repeat: %s" % json.dumps(describe(r), default=str)[:600])
            c.note(unrepeated_rejections=1)
    if rec and not rej:
        s, evs = rec[len(rec) // 2]
        c.sample([short(e) for e in evs[:12]])
    c.note(events=sum(len(e) for _, e in rec))


def short(e):
    e = dict(e)
    if "out" in e:
        e["out"] = bytes(e["out"]).hex()[:64]
    if "v" in e:
        e["v"] = bytes(e["v"]).hex()[:64]
    return e


# ---------------------------------------------------------------------------------------------
# Operands.

def pattern(rng, n):
    """Bytes with long runs of ones and zeros: carries and borders of words."""
    k = rng.random()
    if k < 0.25:
        return rng.randbytes(n)
    if k < 0.35:
        return bytes([rng.choice([0, 255, 1, 0x80, 0x7f, 0xfe])]) * n
    x = 0
    i = 0
    b = rng.random() < 0.5
    while i < 8 * n:
        l = min(8 * n - i, rng.choice([1, 2, 5, 13, 26, 31, 32, 44, 64, rng.randrange(1, 70)]))
        if b:
            x |= ((1 << l) - 1) << i
        i += l
        b = not b
    return x.to_bytes(n, "little")


def cut(rng, n, most=9):
    """A random slicing of n bytes."""
    k = rng.randrange(0, most)
    p = sorted(rng.randrange(n + 1) for _ in range(k))
    return [b - a for a, b in zip([0] + p, p + [n])]


def around(*xs):
    return sorted({y for x in xs for y in (x - 1, x, x + 1) if y >= 0})
