#!/usr/bin/env python3
"""selftest.py ID...: show that the trace specifications reject what they should.

Runs the check with every accepted file of records followed by runs of TLC on altered copies of it: each copy has one
recorded result of one event changed (a byte of an output, a size, a verdict, an error, an exit status).  Prints, for each
kind of event and result, how many alterations were rejected, and lists the accepted ones (an input is not a result: only
results are altered).  For people who change the specifications; no check of the manifest runs it.
"""
import collections
import importlib
import json
import os
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mv import core, cli  # noqa: E402

RESULT = {"r", "out", "e", "n", "tag", "last", "ru", "rn", "verdict", "exit", "memory", "lines", "metrics", "equal", "executed", "err"}
SKIP_N = {"dig", "der", "enc", "dec", "1hash", "1mac"}
PER_KIND = int(os.environ.get("PER_KIND", "1"))
MODULES = {"MiloTrace": "SESSIONS", "MiloCliTrace": "RECORDS", "DispatchTrace": "RECORDS", "ResidueTrace": "RECORDS"}

real = core.tlc
rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
tried = collections.Counter()
rejected = collections.Counter()
accepted = []


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x and all(isinstance(y, (int, str)) and not isinstance(y, bool) for y in x):
            yield path
        else:
            for i, y in enumerate(x):
                yield from leaves(y, path + (i,))
    elif not (x is None):
        yield path


def at(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def altered(v):
    """Values which differ from v, of its kind."""
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + 1] + ([v - 1] if v > 0 else [])
    if isinstance(v, str):
        return [v + "1"] + ([v[:-1]] if v else [])
    out = []
    if v and all(isinstance(y, int) for y in v):
        for i in {0, len(v) - 1, rng.randrange(len(v))}:
            w = list(v)
            w[i] = (w[i] ^ (1 << rng.randrange(8))) & 255
            out.append(w)
        out.append(v[:-1])
        out.append(v + [v[-1]])
    elif v:
        out.append(v[:-1])
        out.append(v + [v[-1]])
    else:
        out.append([0])
    return out


def candidates(module, recs):
    """(kind, record, path) of every result."""
    for i, r in enumerate(recs):
        if module == "MiloTrace":
            for j, e in enumerate(r):
                for k in sorted(set(e) & RESULT):
                    if k == "n" and e["op"] not in ("open",):
                        continue
                    for p in leaves(e[k], (k,)):
                        yield (e["op"], k), i, (j,) + p
        else:
            for k in sorted(set(r) & RESULT):
                for p in leaves(r[k], (k,)):
                    yield (r.get("kind", module), ".".join(str(x) for x in p if not isinstance(x, int))), i, p


def tlc(c, module, cfg=None, env=None, **kw):
    r = real(c, module, cfg, env=env, **kw)
    if not r.ok or module not in MODULES or not env:
        return r
    src = env[MODULES[module]]
    with open(src) as f:
        recs = [json.loads(l) for l in f]
    by = {}
    for kind, i, p in candidates(module, recs):
        by.setdefault(kind, []).append((i, p))
    for kind, l in sorted(by.items()):
        if tried[kind] >= PER_KIND * 6:
            continue
        for _ in range(PER_KIND):
            i, p = rng.choice(l)
            one = json.loads(json.dumps(recs[i]))
            v = at(one, p)
            w = rng.choice(altered(v))
            put(one, p, w)
            if module == "MiloTrace":
                one = one[:p[0] + 1] if rng.random() < 0.5 else one
            dst = src + ".altered"
            with open(dst, "w") as f:
                # the altered one alone, first or last
                pre = [] if rng.random() < 0.5 else [recs[(i + 1) % len(recs)]]
                if module == "ResidueTrace":    # records of one destruction belong together, the first one is what others are compared with
                    k = next(k for k in range(i, -1, -1) if recs[k]["first"])
                    pre = recs[k:i]
                    if not pre:
                        continue
                for x in pre + [one]:
                    f.write(json.dumps(x, separators=(",", ":")) + "\n")
            e = dict(env)
            e[MODULES[module]] = dst
            q = real(c, module, cfg, env=e, **kw)
            tried[kind] += 1
            if q.deadlock:
                rejected[kind] += 1
                if module == "MiloTrace":
                    assert "position = " in q.out, q.out
                else:
                    assert core.refused_at(q) == len(pre) + 1, q.out[-3000:]
            elif q.ok:
                accepted.append((kind, p, str(v)[:200], str(w)[:200], json.dumps(one[p[0]] if module == "MiloTrace" else one)[:600]))
            else:
                accepted.append((kind, "error", str(v)[:100], str(w)[:100], q.error[-500:]))
            os.remove(dst)
    return r


if __name__ == "__main__":
    core.tlc = cli.tlc = tlc
    for pid in sys.argv[1:]:
        mod = importlib.import_module("checks." + pid.lower())
        if hasattr(mod, "tlc"):
            mod.tlc = tlc
        for x in (tried, rejected):
            x.clear()
        accepted.clear()
        rc = core.main(pid.upper(), mod.check)
        print("%s: exit %d, %d of %d alterations rejected" % (pid, rc, sum(rejected.values()), sum(tried.values())))
        for k in sorted(tried, key=str):
            print("   %-28s %d of %d" % ("/".join(k), rejected[k], tried[k]))
        for a in accepted[:40]:
            print("   ACCEPTED", *a)
