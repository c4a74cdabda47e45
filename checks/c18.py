"""C18: the application runs what was selected with what was given."""
import itertools

from mv.cli import *

TOKENS = ["benchmark", "primitive", "list", "hash-sha-1-160", "hash-sha-2-*", "nothing", "version", "", "--verbose", "--advanced",
          "--message-size=3", "--message-size=x", "--message-size", "--repeats-time=2", "-o", "--"]


def short_lists(c):
    """All lists of few tokens; all continuations of a complete command by few tokens."""
    out = []
    for n in range(0, 3 if c.quick else 5):
        out += [list(x) for x in itertools.product(TOKENS, repeat=n)]
    base = ["benchmark", "primitive"]
    for x in itertools.product(TOKENS, repeat=1 if c.quick else 2):
        for y in itertools.product(TOKENS, repeat=1 if c.quick else 2):
            out.append(base[:1] + list(x) + base[1:] + list(y))
            out.append(base + list(x) + list(y))
            out.append(list(x) + base + ["hash-sha-1-160"] + list(y))
            out.append(list(x) + base + list(y) + ["--message-size=1"])
    # Words that are nearly those with a meaning, in place of each.
    full = ["benchmark", "primitive", "list"]
    for i, word in enumerate(full + ["version"]):
        near = [word + "s", word[:-1], word + "-", word.upper(), word.capitalize(), " " + word, word + " ", word + "*", "*" + word, word[:2],
                word[1:], word[:-1] + "*", "--" + word, word + "=1", word * 2, word[0]]
        for x in near:
            for tail in ([], ["--repeats-time=1", "--repeats-warm=0"], full[i + 1:]):
                out.append(full[:i] + [x] + tail if i < 3 else [x] + tail)
            if i == 2:
                out.append(["benchmark", "--repeats-time=1", "--repeats-warm=0", "primitive", x] + ["--%s=3" % p for p in ALL])
                out.append(["benchmark", "primitive", "list", x])
    return out


def expression(c, all_names):
    """Something like a name."""
    r = c.rng
    n = r.choice(all_names)
    k = r.randrange(8)
    if k == 0:
        return n
    if k == 1:
        i = r.randrange(len(n) + 1)
        return n[:i] + "*"
    if k == 2:
        i = r.randrange(len(n) + 1)
        return "*" + n[i:]
    if k == 3:
        i, j = sorted(r.randrange(len(n) + 1) for _ in range(2))
        return "*" + n[i:j] + "*"
    if k == 4:
        # Repeated parts and near misses.
        return r.choice(["*-sha-2-*", "*-2-*-2*", "*160", "*16", "*0*0", "h*-1*", "*2-512*", "*-512-2*4", "*512*512*", "*sw*sw", "*12-2*6*",
                         "*1*1*", "*-2-2", "**", "*", "***-*", "*a*e*a*d*", "c*-*-*-*-*", "*6-*6*", "-*", "--*"])
    s = list(n)
    for _ in range(r.randrange(1, 5)):
        i = r.randrange(len(s) + 1)
        q = r.randrange(4)
        if q == 0:
            s.insert(i, "*")
        elif q == 1 and s:
            i = r.randrange(len(s))
            j = min(len(s), i + r.randrange(1, 8))
            s[i:j] = ["*"]
        elif q == 2 and s:
            s[r.randrange(len(s))] = r.choice("*?-0129aehs")
        elif s and r.random() < 0.4:
            del s[r.randrange(len(s))]
    return "".join(s)


def number(c):
    r = c.rng
    return r.choice(["0", "1", "3", "00", "007", "16", "64", "65", "100", "255", str(r.randrange(300)), str(r.randrange(300))])


def malformed(c):
    return c.rng.choice(["x", "1x", "x1", "-1", "+1", " 1", "1 ", "0x10", "1.0", "1e3", "18446744073709551616", "99999999999999999999", "1,", "=1", "1=2", "-", "--"])


def parameter(c, name, good=0.93):
    r = c.rng
    if r.random() < good:
        return "--%s=%s" % (name, number(c))
    return r.choice(["--%s=%s" % (name, malformed(c)), "--%s" % name, "--%s=" % name, "-%s=%s" % (name, number(c)),
                     "--%s-=%s" % (name, number(c)), "--%s%s" % (name, number(c)), "--x%s=%s" % (name, number(c)),
                     "--%s=%s" % (name[:-1], number(c)), "--%s=%s" % (name.upper(), number(c)), "---%s=%s" % (name, number(c))])


def shuffled(c, l, extra=0.3):
    """In some order, with unknown ones, repeated ones."""
    r = c.rng
    l = list(l)
    r.shuffle(l)
    while r.random() < extra:
        l.insert(r.randrange(len(l) + 1), r.choice(["--unknown=1", "--unknown", "--", "--=", "--verbose", "--advanced", "--repeats-time=x",
                                                    parameter(c, r.choice(ALL)), parameter(c, r.choice(ALL), 0.3), "--cpu-clock=1", "--list"]))
    return l


def runs(c, all_names, more_names, n):
    r = c.rng
    out = []
    for i in range(n):
        top = shuffled(c, [x for x in ("--verbose", "--advanced") if r.random() < 0.3], 0.15)
        if "--advanced" in top and not accelerated():
            top.remove("--advanced")
        bench = ["--repeats-time=%s" % r.choice(["1", "1", "2", "3", "0", "", "x", "1024"])] if r.random() < 0.97 else []
        bench += ["--repeats-warm=%s" % r.choice(["0", "1", "", "5", "-1"])] if r.random() < 0.97 else []
        if r.random() < 0.4:
            bench.append("--cpu-clock=%s" % r.choice(["0", "1", "2400", "", "x", "9999999999999"]))
        bench = shuffled(c, bench, 0.15)
        e = expression(c, more_names if r.random() < 0.5 else all_names)
        if e.startswith("-"):
            e = "*" + e
        # What the expression may need, or nearly so.
        gs = [g for g in GROUPS if e.startswith(g) or (e[:1] == "*")] or list(GROUPS)
        need = sorted({p for g in gs for p in GROUPS[g]})
        if r.random() < 0.15 and need:
            need.remove(r.choice(need))
        ps = shuffled(c, [parameter(c, p) for p in need], 0.4)
        a = top + ["benchmark"] + bench + ["primitive"]
        if r.random() < 0.08:
            a += shuffled(c, [], 0.6) + ["list"] + ps
        else:
            a += shuffled(c, [], 0.1) + [e] + ps
        if r.random() < 0.1:
            a.insert(r.randrange(len(a) + 1), r.choice(["version", "extra", "--unknown=3", "list", "*", parameter(c, r.choice(ALL))]))
        if r.random() < 0.05:
            a.append("tail")
            a += [parameter(c, p) for p in need]
        out.append(a)
    return out


def harmless(a):
    """Whether an argument list is affordable: repeats and sizes."""
    return not any(re.match(r"--(repeats-time|repeats-warm|iterations)=0*[1-9]\d{4,}$", x) for x in a)


def check(c):
    design(c, "GlobDesign")
    if c.quick:
        design(c, "CliDesign")
    else:
        design(c, "CliDesign", "CliDesignMore.cfg", workers=8)
    exe, probe = parallel([lambda: build_app(c), lambda: build_probe(c)])
    basic, more = names(c, exe, False), names(c, exe, True)
    if not basic or not more:
        raise Violation("the list of benchmarks is empty")
    conform_app(c, exe, [(a, 40) for a in short_lists(c)], "selection", "short")
    # Every expression of the form prefix*, *suffix of every name; the names themselves.
    every = []
    for n in (basic + (more if accelerated() else [])):
        adv = ["--advanced"] if n not in basic else []
        ks = {0, len(n)} | {c.rng.randrange(len(n)) for _ in range(2)} if c.quick else range(len(n) + 1)
        for k in ks:
            for e in (n[:k] + "*", "*" + n[k:], n[:k] + "*" + n[k:], n[:k] + n[k + 1:]):
                if not e.startswith("-"):
                    every.append(adv + ["benchmark", "--repeats-time=1", "--repeats-warm=0", "primitive", e] + ["--%s=%d" % (p, i + 1) for i, p in enumerate(ALL)])
    conform_app(c, probe or exe, [(a, 7) for a in every], "selection", "expressions", bool(probe))
    l = [(a, 7) for a in runs(c, basic, more, 1600 if c.quick else 40000) if harmless(a)]
    n = len(l) // 2
    conform_app(c, exe, l[:n], "selection", "random")
    conform_app(c, probe or exe, l[n:], "selection", "random_work", bool(probe))
    c.assumptions += ["The work of a benchmark is noted where the application uses the aliases of the library's algorithms; it does not check results."]
