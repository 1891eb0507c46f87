"""C03 value semantics of ranges."""
import copy
import pickle

from mc.core import Space, thorough
from mc import rangemodel as M

PROTOCOLS = range(pickle.HIGHEST_PROTOCOL + 1)
WAYS = ("copy", "deepcopy") + tuple(f"pickle{p}" for p in PROTOCOLS)


def clone(rng, way):
    if way == "copy":
        return copy.copy(rng)
    if way == "deepcopy":
        return copy.deepcopy(rng)
    return pickle.loads(pickle.dumps(rng, int(way[6:])))


def gen_clone(tier):
    for n in (1, 2) if not thorough(tier) else (1, 2, 3, 4):
        for r in M.all_ranges(n):
            for a in M.ALPHABETS:
                for way in WAYS:
                    yield (a, n, r, way)


def run_clone(case, t):
    a, n, r, way = case
    ep, probes = M.endpoints(a, n)
    orig = M.make(r, ep)
    c = t.call(lambda: clone(orig, way), f"{way} of a range")
    t.state((a, r, way))
    w = f"{way} of {orig!r}"
    M.observe(t, c, r, ep, probes, w)
    t.true(c == orig and orig == c, f"{w} equals the original")
    t.false(c != orig, f"{w} differs from the original")
    t.eq(hash(c), hash(orig), f"hash of {w}")
    t.eq(repr(c), repr(orig), f"printed form of {w}")
    twice = clone(c, way)
    t.eq(twice, orig, f"{w}, twice")
    for s in M.all_ranges(n):
        o = M.make(s, ep)
        t.is_(c == o, r == s, f"{w} == {o!r}")
        t.is_(c.encloses(o), M.encloses(r, s), f"({w}).encloses({o!r})")
        t.is_(o.encloses(c), M.encloses(s, r), f"{o!r}.encloses({w})")
        t.is_(c.is_connected(o), M.connected(r, s), f"({w}).is_connected({o!r})")
        t.eq(M.unmake(o.span(c), ep), M.span(r, s), f"{o!r}.span({w})")
        if M.connected(r, s):
            t.eq(M.unmake(c.intersection(o), ep), M.intersection(r, s), f"({w}).intersection({o!r})")


def gen_eq(tier):
    n = 3 if not thorough(tier) else 5
    for a in M.ALPHABETS:
        for r in M.all_ranges(n if a in ("int", "dense", "str") else 2):
            yield (a, n if a in ("int", "dense", "str") else 2, r)


def run_eq(case, t):
    a, n, r = case
    ep, _ = M.endpoints(a, n)
    x = M.make(r, ep)
    px = t.call(lambda: repr(x), "repr of a range")
    for s in M.all_ranges(n):
        y = M.make(s, M.endpoints(a, n)[0])
        t.state((a, r, s))
        t.is_(x == y, r == s, f"{px} == {y!r}")
        t.is_(x != y, r != s, f"{px} != {y!r}")
        if r == s:
            t.eq(hash(x), hash(y), f"hash of {px}")
            t.eq(px, repr(y), "printed form of equal ranges")
            t.eq(len({x, y}), 1, f"{px} in a set, twice")
        else:
            t.true(px != repr(y), f"{px} printed differently from {s}")
            t.eq(len({x, y}), 2, f"{px} and {y!r} in a set")
    for other in (None, 0, "x", px, (), (ep[0], ep[-1]), range(3), ep[0], object()):
        t.is_(x == other, False, f"{px} == {other!r}")
        t.is_(other == x, False, f"{other!r} == {px}")
        t.is_(x != other, True, f"{px} != {other!r}")
    # the same value of another numeric type makes an equal range
    if a == "dense":
        y = M.make(r, [float(e) for e in ep])
        t.true(x == y, f"{px} equals its float twin")
        t.eq(hash(x), hash(y), f"hash of the float twin of {px}")


SPACES = [
    Space("clones", gen_clone, run_clone,
          lambda tier: "every range over 1..%d endpoints of 12 types, copied 8 ways, against every other range"
          % (4 if thorough(tier) else 2)),
    Space("equality", gen_eq, run_eq,
          lambda tier: "all pairs of ranges over %d endpoints (2 for the rarer types)" % (5 if thorough(tier) else 3)),
]
