"""The application: building it, running argument lists, validating the runs with TLC."""
import decimal

from mv.core import *
from mv import types

GROUPS = {
    "codec": ["bytes-size"], "hash": ["message-size"], "mac": ["key-size", "message-size"],
    "kdf-hkdf": ["ikm-size", "salt-size", "info-size", "key-size"],
    "kdf-pbkdf-2": ["ikm-size", "salt-size", "iterations", "key-size"],
    "cipher": ["bytes-size"], "aead": ["aad-size", "bytes-size"],
}
ALL = sorted({p for l in GROUPS.values() for p in l})


def build_app(c, name="milo", opt="-O1", sources=()):
    """The application with a clock of its own."""
    return build(c, name, [os.path.join(REPO, "app/main.cpp"), "clock.cpp"] + list(sources), opt,
                 ["-I" + os.path.join(REPO, "app/include")], ["-w", "-rdynamic"], what="the application")


def build_probe(c, name="milo_probe", opt="-O1"):
    """The application over aliases that note their operations, or None if its sources cannot be built that way."""
    try:
        with open(os.path.join(REPO, "src/milo/primitive/detail/alias.h")) as f:
            alias = [x for x in re.findall(r"^\s*using\s+(\w+)\s*=", f.read(), re.M) if not x.endswith("_any")]
    except OSError:
        return None
    with open(c.path("probe_all.h"), "w") as f:
        f.write('#pragma once\n#include "probe.h"\n')
        for x in alias:
            f.write('namespace milo::primitive { using probed_%s = ::milo_probe::probed%s<"%s", %s>; }\n' % (x, "_codec" if x.startswith("codec_") else "", x, x))
        f.write("".join("#define %s probed_%s\n" % (x, x) for x in alias))
    exe = c.path(name)
    inc = ["-I" + os.path.join(REPO, "app/include")]
    cmds = [["g++", "-std=c++20", "-O1", "-c", os.path.join(HARNESS, "clock.cpp"), "-o", exe + "_clock.o"],
            ["g++", "-std=c++20", opt, "-w", "-c"] + DEF + INC + inc + ["-I" + HARNESS, "-I" + c.dir, "-include", "probe_all.h", os.path.join(REPO, "app/main.cpp"), "-o", exe + "_main.o"],
            ["g++", exe + "_main.o", exe + "_clock.o"] + list(asm_objs(c)) + ["-o", exe, "-rdynamic", "-z", "noexecstack", "-lpthread"]]
    for cmd in cmds:
        r = sh(cmd, timeout=400)
        if r.returncode:
            log("the application does not build with probes: " + r.stderr.decode()[:300])
            return None
    return exe


class NotJson(Exception):
    pass


def pairs(l):
    d = dict(l)
    if len(d) != len(l):
        raise NotJson("a key twice")
    return d


def bad(x):
    raise NotJson(x)


def number(t):
    s, d, e = decimal.Decimal(t).as_tuple()
    return {"neg": bool(s and any(d)), "num": "".join(map(str, d)), "exp": e}


class Str(str):
    pass


def tag(x):
    """JSON for TLC: strings and arrays marked, numbers exact."""
    if isinstance(x, dict):
        if set(x) == {"neg", "num", "exp"}:
            return x
        return {k: tag(v) for k, v in x.items()}
    if isinstance(x, str):
        return {"str": x}
    if isinstance(x, list):
        return {"arr": [tag(v) for v in x]}
    return {"str": "!" + json.dumps(x)}


def record(args, step, rc, out, err):
    r = {"args": args, "step": str(step), "exit": rc, "err": bool(err.strip()), "out": "none"}
    try:
        t = out.decode("ascii")
    except UnicodeDecodeError:
        return dict(r, out="other")
    if not t:
        return r
    if t.lstrip().startswith("{"):
        try:
            d = json.loads(t, object_pairs_hook=pairs, parse_int=number, parse_float=number, parse_constant=bad)
            return dict(r, out="json", doc=tag(d))
        except (ValueError, NotJson, RecursionError):
            return dict(r, out="other")
    return dict(r, out="text", lines=t.split("\n")[:-1])


def run_one(exe, args, step, timeout=60, work=None):
    """A run; with its work if the program notes it (into the file work)."""
    env = {"MILO_STEP": str(step), "PATH": "/usr/bin:/bin"}
    if work:
        if os.path.exists(work):
            os.remove(work)
        env["MILO_PROBE"] = work
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"args": args, "step": str(step), "exit": -1000, "err": False, "out": "none"}
    r = record(args, step, p.returncode, p.stdout, p.stderr)
    if work and os.path.exists(work):
        with open(work) as f:
            t = f.read()
        if len(t) < 2000000:
            r["work"] = json.loads(t)
    return r


def run_all(exe, cases, work=None):
    """cases: (args, step)."""
    lanes = JOBS * 2

    def lane(j):
        return [run_one(exe, a, s, work=work and "%s_%d" % (work, j)) for a, s in cases[j::lanes]]
    parts = parallel([lambda j=j: lane(j) for j in range(lanes)], lanes)
    out = [None] * len(cases)
    for j, l in enumerate(parts):
        out[j::lanes] = l
    return out


def refused(c, records, aspect, tag, shards=JOBS):
    """Indices of the first refused record of every shard."""
    ids = [list(range(i, len(records), shards)) for i in range(shards)]
    ids = [l for l in ids if l]

    def one(k, l):
        p = c.path("%s_%d.records" % (tag, k))
        with open(p, "w") as f:
            for i in l:
                f.write(json.dumps(records[i]) + "\n")
        r = tlc(c, "MiloCliTrace", env={"RECORDS": p, "ASPECT": aspect})
        if r.ok:
            if r.distinct != len(l) + 1:
                raise Broken("MiloCliTrace: %d states for %d runs" % (r.distinct, len(l)))
            c.add(r.distinct, r.generated, len(l))
            return None
        if not r.deadlock:
            raise Broken("MiloCliTrace: %s" % r.error[-2000:])
        return l[refused_at(r) - 1]
    return [x for x in parallel([lambda k=k, l=l: one(k, l) for k, l in enumerate(ids)]) if x is not None]


def conform_app(c, exe, cases, aspect, what, work=False):
    cases = [([a for a in x], s) for x, s in cases]
    work = c.path("work_" + what) if work else None
    rec = run_all(exe, cases, work)
    for i in refused(c, rec, aspect, what):
        again = run_one(exe, *cases[i], work=work)
        if refused(c, [again], aspect, what + "_again", 1):
            a = again
            c.violation("%s: the specification has no such run: milo %s: exit %d, output %s" % (
                what, " ".join(a["args"])[:200], a["exit"], a["out"]), {"run": a, "command": ["milo"] + a["args"]})
        else:
            log("a rejection that did not repeat: %s" % json.dumps(rec[i])[:500])
            c.note(unrepeated_rejections=1)
    c.note(**{"runs": len(cases), "runs_" + what: len(cases)})
    if work:
        c.note(runs_whose_work_was_noted=sum(1 for r in rec if any(r.get("work", []))))
    if rec:
        r = dict(rec[len(rec) // 2])
        r.pop("doc", None)
        r.pop("work", None)
        c.sample(r, 12)


def names(c, exe, advanced):
    """What the application offers (only to derive expressions from)."""
    p = subprocess.run([exe] + (["--advanced"] if advanced else []) + ["benchmark", "primitive", "list"], stdout=subprocess.PIPE, timeout=60)
    return [x for x in p.stdout.decode("ascii", "replace").split("\n") if x]


def accelerated():
    """Whether this CPU can run every backend."""
    f = types.cpu_flags()
    return {"ssse3", "avx2", "sha_ni", "sse4_1"} <= set(f)
