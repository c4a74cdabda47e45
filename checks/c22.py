"""C22: verification time does not depend on the tags."""
from mv.core import *


def cases(c, form, again):
    """(class, line, whether the tags are equal): sizes times differences."""
    out = []
    h = lambda b: bytes(b).hex() or "-"
    sizes = [(0, 0), (5, 37), (32, 64)] if c.quick else [(0, 0), (1, 0), (0, 1), (5, 37), (13, 64), (32, 64), (40, 200)]
    for z in sizes:
        cl = (form, again) + z
        fixed = [c.rng.randbytes(32), c.rng.randbytes(12), c.rng.randbytes(z[0]), c.rng.randbytes(z[1])]
        diffs = [bytes(16)] * 3
        for i in range(16):
            for v in [1 << c.rng.randrange(8), 0xff] if c.quick else [1 << b for b in range(8)] + [0xff]:
                diffs.append(bytes(i) + bytes([v]) + bytes(15 - i))
        # A common prefix or suffix, two differences that could cancel, everything.
        for i in range(1, 16):
            diffs.append(bytes(i) + c.rng.randbytes(16 - i))
            diffs.append(c.rng.randbytes(i) + bytes(16 - i))
            x = [0] * 16
            j = c.rng.randrange(16)
            x[i] ^= 0x55
            x[j] ^= 0x55
            diffs.append(bytes(x))
        diffs += [b"\xff" * 16, b"\x80" * 16, bytes(8) + b"\xff" * 8]
        for n in range(1 if c.quick else 3):
            c.rng.shuffle(diffs)
            for k, d in enumerate(diffs):
                m = fixed if k % 2 else [c.rng.randbytes(32), c.rng.randbytes(12), c.rng.randbytes(z[0]), c.rng.randbytes(z[1])]
                if not any(d):
                    m = fixed if k % 2 else m
                out.append((cl, "%d %d %s %s" % (form, again, " ".join(h(x) for x in m), d.hex()), not any(d)))
    return out


def run(c, exe, tag, l):
    """Recorded verifications: [(class, equal, verdict, trace)]."""
    p = c.path(tag + ".script")
    with open(p, "w") as f:
        f.write("".join(x + "\n" for _, x, _ in l))
    try:
        r = sh([exe, p], timeout=400)
    except subprocess.TimeoutExpired:
        return None, "no end"
    if r.returncode in (4, 5):
        raise Broken("verify_time: %s" % r.stderr.decode()[-300:])
    out = r.stdout.decode().split("\n")[:-1]
    if r.returncode or len(out) < len(l):
        return None, "status %d, %s" % (r.returncode, out[-1:])
    traces = [[int(x) for x in t.split()[1:]] for t in out[len(l):]]
    rec = []
    for (cl, x, eq), o in zip(l, out):
        v, t = o.split()
        if int(t) >= len(traces):
            return None, "more than %d different traces" % len(traces)
        rec.append((cl, eq, v == "1", traces[int(t)], x))
    return rec, None


def refused(c, tag, rec):
    """The first recorded verification that the specification refuses, or None."""
    addr, traces, runs, classes = {}, {}, [], {}
    for cl, eq, v, t, _ in rec:
        t = tuple(x if x < 0 else addr.setdefault(x, len(addr)) for x in t)
        runs.append({"c": classes.setdefault(cl, len(classes) + 1), "equal": eq, "verdict": v, "t": traces.setdefault(t, len(traces) + 1)})
    p = c.path(tag + ".records")
    with open(p, "w") as f:
        json.dump({"classes": len(classes), "traces": [list(t) for t in traces], "runs": runs}, f)
    r = tlc(c, "VerifyTimeTrace", env={"RECORDS": p})
    if r.ok:
        if r.distinct != len(runs) + 1:
            raise Broken("VerifyTimeTrace: %d states for %d runs" % (r.distinct, len(runs)))
        c.add(r.distinct, r.generated, len(runs))
        c.note(verifications=len(runs), classes=len(classes), different_traces=len(traces), instructions=sum(len(traces_of) for traces_of in traces))
        c.sample({"program": tag, "class": list(rec[0][0]), "instructions": len(rec[0][3]), "accesses_to_tag": sum(x < 0 for x in rec[0][3])})
        return None
    if not r.deadlock:
        raise Broken("VerifyTimeTrace: %s" % r.error[-2000:])
    return refused_at(r) - 1


def check(c):
    design(c, "VerifyTimeDesign")
    # The same with a comparison that ends early is told apart.
    r = tlc(c, "VerifyTimeDesign", "VerifyTimeEarly.cfg", cwd=os.path.join(SPEC, "design"))
    if not r.violated:
        raise Broken("VerifyTimeEarly: %s" % r.out[-500:])
    programs = [("O0", "aead_chacha_20_poly_1305"), ("O2", "aead_chacha_20_poly_1305"), ("O3", "aead_chacha_20_sw_poly_1305_sw")]
    if not c.quick:
        programs += [("O1", "aead_chacha_20_poly_1305"), ("Os", "aead_chacha_20_sw_poly_1305_sw"), ("O2", "aead_chacha_20_sw_poly_1305_sw"), ("O3", "aead_chacha_20_poly_1305")]
    asm_objs(c)

    def make(o, t):
        return build(c, "verify_%s_%s" % (o, t), ["verify_time.cpp"], "-" + o, ["-DPRIMITIVE=" + t], ["-w", "-no-pie", "-fno-pie"])
    exes = parallel([lambda p=p: make(*p) for p in programs])
    jobs = [(exe, "%s_%s_%d%d" % (p + f), cases(c, *f)) for p, exe in zip(programs, exes) for f in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0))]

    def one(exe, tag, l):
        for attempt in (1, 2):
            rec, why = run(c, exe, tag, l)
            if rec is None:
                k = None
            else:
                k = refused(c, tag, rec)
                if k is None:
                    return
            if attempt == 1:
                continue
            if rec is None:
                c.violation("%s: verification fails: %s" % (tag, why))
                continue
            cl, eq, v, t, x = rec[k]
            d = {"program": tag, "case": x, "equal": eq, "verdict": v, "instructions": len(t)}
            for y in rec[:k]:
                if y[0] == cl and y[3] != t:
                    n = next((i for i, (a, b) in enumerate(zip(t, y[3])) if a != b), min(len(t), len(y[3])))
                    d.update(other=y[4], other_verdict=y[2], other_instructions=len(y[3]), part=n, at=t[max(0, n - 2):n + 1])
                    break
            c.violation("%s: verification tells its tags apart: %d instructions%s" % (
                tag, len(t), ", another %d, parting at %d" % (d["other_instructions"], d["part"]) if "part" in d else " (verdict %s)" % v), d)
    parallel([lambda j=j: one(*j) for j in jobs])
    c.assumptions += ["Instructions and accesses to the presented tag are observed; what an instruction costs is not.",
                      "Programs of this compiler; g++ at several optimization levels."]
