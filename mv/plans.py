"""Plans shared by the checks."""
from mv.core import *


def sweep(c, ss, group, mk, b, m, D, ks, fs=None, upd=Session.upd, cost=1.0):
    """Sessions for an object with f bytes in its buffer getting k more: mk(session) sets up slot 1,
    ks(f) are the sizes to try."""
    for f in (range(b) if fs is None else fs):
        s = Session(group=group)
        s.cost = cost
        mk(s)
        upd(s, 1, (m, 0, f, place(c.rng)))
        for k in sorted(ks(f)):
            s.cpy(2, 1)
            upd(s, 2, (m, f, k, place(c.rng)))
            s.dig(2, D, place(c.rng)).drop(2)
        ss.append(s)


def edges(rng, f, b, extra=4, wide=True):
    """Sizes that complete a buffer of f bytes, or nearly so."""
    ks = {b - f, b - f + 1}
    if wide:
        ks |= {0, 1, 2, b - f - 1, 2 * b - f, 2 * b - f + 1, 3 * b - f}
    return ks | {rng.randrange(3 * b) for _ in range(extra)}


def sessions_of(c, w, plans, tag, depth, n, cost=20):
    """Behaviours of MiloGen for each (group, prologue, alphabet): n random ones, or all.
    What can be called when depends only on the kinds of the calls, so that plans of the same
    kinds of calls share one generation."""
    shapes = {}
    for p in plans:
        sig = json.dumps([[(e["op"], e.get("o"), e.get("d"), e.get("k"), e.get("m")) for e in x.events[1:]] for x in p[1:]])
        shapes.setdefault(sig, []).append(p)

    def one(i, ps):
        hs = generate(c, "%s%d" % (tag, i), ps[0][1], ps[0][2], depth, w.streams,
                      simulate=n * len(ps) if n else 0, seed=c.seed * 100 + i)
        out = []
        for j, (group, pro, al) in enumerate(ps):
            part = hs[j::len(ps)] if n else hs
            if w.hash or w.mac or w.okm or w.ks:
                out += replay(c, pro, al, part, group=group, cost=cost)
            else:               # no tables to share: spread
                for q in range(JOBS):
                    out += replay(c, pro, al, part[q::JOBS], group=(group, q), cost=cost)
        return out
    return [s for l in parallel([lambda i=i, ps=ps: one(i, ps) for i, ps in enumerate(shapes.values())]) for s in l]


def behaviours(c, exe, w, plans, tag, depth, n, cost=20, **kw):
    """The same, replayed."""
    conform(c, exe, w, sessions_of(c, w, plans, tag, depth, n, cost), tag, **kw)


def all_behaviours(c, exe, w, plans, tag, depth, cost=20, **kw):
    """All behaviours of that depth."""
    return behaviours(c, exe, w, plans, tag, depth, 0, cost, **kw)
