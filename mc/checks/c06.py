"""C06 snapshots and value equality of range sets and maps."""
import copy
import pickle

from mc.core import Space, thorough, seqs
from mc import rangemodel as M
from mc.checks.c04 import build, observe, ROUTES
from mc.checks.c05 import queries

WAYS = ("copy", "deepcopy") + tuple(f"pickle{p}" for p in range(pickle.HIGHEST_PROTOCOL + 1))


def clone(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(way[6:])))


# --- snapshots over histories -------------------------------------------------------------

def gen_snap(tier):
    ops = [("add", r) for r in ((0, 1), (1, 3), (2, 2), (-1, 0), (3, 4), (-1, 4))] + [("clear",), ("snap",), ("bsnap",)]
    for h in seqs(ops, 1, 4 if not thorough(tier) else 5):
        if ("snap",) in h or ("bsnap",) in h:
            yield h


def run_snap(case, t):
    from vistautils.range import ImmutableRangeSet, RangeSet

    ep, _ = M.endpoints("int", 2)
    s, m = RangeSet.create_mutable(), 0
    b, bm = ImmutableRangeSet.builder(), 0
    snaps = []
    for op in case:
        if op[0] == "add":
            s.add(M.make(op[1], ep))
            m |= M.mask(op[1])
            b.add(M.make(op[1], ep))
            bm |= M.mask(op[1])
        elif op[0] == "clear":
            s.clear()
            m = 0
        elif op[0] == "snap":
            im = s.immutable_copy()
            snaps.append((im, m, hash(im)))
        else:
            im = b.build()
            snaps.append((im, bm, hash(im)))
    for im, want, h in snaps:
        observe(t, im, want, ep, f"{case} (snapshot)")
        t.eq(hash(im), h, f"hash of a snapshot in {case}")
        t.eq(im, build(want, ep, "segments"), f"snapshot in {case}")
    observe(t, s, m, ep, f"{case} (the mutable set)")
    # the snapshot offers no way to change it
    im = snaps[-1][0]
    for name in ("add", "add_all", "clear", "remove", "remove_all"):
        t.false(hasattr(im, name), f"an immutable range set has {name}")


# --- equality and hashing -----------------------------------------------------------------

def gen_eq(tier):
    n = 2 if not thorough(tier) else 3
    for m in range(2 ** (2 * n + 1)):
        for m2 in range(2 ** (2 * n + 1)):
            yield (n, m, m2)


def run_eq(case, t):
    n, m, m2 = case
    ep, _ = M.endpoints("str" if m % 2 else "int", n)
    left = [build(m, ep, "runs"), build(m, ep, "segments").immutable_copy()]
    right = [build(m2, ep, "runs-down"), build(m2, ep, "refilled").immutable_copy()]
    t.state((n, m, m2))
    for x in left:
        for y in right:
            w = f"{M.runs(m)}, {M.runs(m2)}"
            t.is_(x == y, m == m2, f"equality of range sets {w}")
            t.is_(x != y, m != m2, f"inequality of range sets {w}")
            if m == m2:
                t.eq(hash(x), hash(y), f"hash of equal range sets {w}")
                t.eq(len({x, y}), 1, f"equal range sets in a set {w}")
        if m == m2:
            for other in (None, 0, (), [], list(x.as_ranges()), "x", object(), set(x.as_ranges())):
                t.is_(x == other, False, f"range set == {other!r}")
                t.is_(x != other, True, f"range set != {other!r}")


# --- clones -------------------------------------------------------------------------------

def gen_clone(tier):
    for n, a in ((2, "int"), (2, "str"), (2, "tuple"), (3, "int")) if not thorough(tier) else \
            [(3, a) for a in M.ALPHABETS] + [(4, "int")]:
        for m in range(2 ** (2 * n + 1)):
            for way in WAYS:
                yield (a, n, m, way)


def run_clone(case, t):
    a, n, m, way = case
    ep, probes = M.endpoints(a, n)
    rs = M.all_ranges(n)
    extra = rs[(m * 7 + len(way)) % len(rs)]
    t.state((a, n, m, way))
    for kind in ("mutable", "immutable"):
        s = build(m, ep, ROUTES[m % len(ROUTES)])
        if kind == "immutable":
            s = s.immutable_copy()
        c = t.call(lambda: clone(s, way), f"{way} of {kind} {M.runs(m)}")
        w = f"{way} of {kind} {M.runs(m)}"
        t.call(lambda: observe(t, c, m, ep, w), w)
        t.true(c == s and s == c, f"{w} equals the original")
        t.eq(hash(c), hash(s), f"hash of {w}")
        queries(t, c, M.runs(m), rs if n < 3 else rs[::3], ep, probes, w)
        if kind == "mutable":
            before = c.immutable_copy()
            s.add(M.make(extra, ep))
            observe(t, c, m, ep, f"{w}, after the original changed")
            c.clear()
            observe(t, s, m | M.mask(extra), ep, f"{w}: the original after the copy was cleared")
            c.add(M.make(extra, ep))
            observe(t, c, M.mask(extra), ep, f"{w}, cleared and added to")
            observe(t, before, m, ep, f"{w}: snapshot of the copy")
        else:
            t.call(lambda: clone(clone(s, way), "pickle4"), f"pickling {w}")


# --- range maps ---------------------------------------------------------------------------

VALUES = (1, 0, "", None, "a", (1, 2), False)


def maps(n, sizes, values):
    import itertools

    rs = M.all_ranges(n, empty=False)
    for k in sizes:
        for keys in itertools.combinations(rs, k):
            if any(M.connected(x, y) for x, y in itertools.combinations(keys, 2)):
                continue
            for vals in itertools.product(values, repeat=k):
                yield tuple(zip(keys, vals))


def gen_mapeq(tier):
    vals = (1, 0) if not thorough(tier) else (1, 0, None)
    ms = list(maps(2, (0, 1, 2), vals))
    for x in ms:
        for y in ms:
            if set(k for k, _ in x) == set(k for k, _ in y) or (len(x) == len(y) and x[0][1] == y[0][1]) or not x or not y:
                yield (x, y)


def run_mapeq(case, t):
    from vistautils.range import ImmutableRangeMap, immutablerangemap

    x, y = case
    ep, _ = M.endpoints("int", 2)
    t.state(case)
    a = immutablerangemap([(M.make(k, ep), v) for k, v in x])
    y_pairs = [(M.make(k, M.endpoints("int", 2)[0]), v) for k, v in reversed(y)]
    b = immutablerangemap(y_pairs)
    bb = ImmutableRangeMap.builder()
    for k, v in y_pairs:
        bb.put(k, v)
    c = bb.build()
    want = dict(x) == dict(y)
    for z in (b, c):
        t.is_(a == z, want, f"equality of range maps {x}, {y}")
        t.is_(a != z, not want, f"inequality of range maps {x}, {y}")
        if want:
            t.eq(hash(a), hash(z), f"hash of equal range maps {x}, {y}")
            t.eq(len({a, z}), 1, f"equal range maps in a set {x}, {y}")
    for other in (None, 0, {}, (), dict(a.as_dict()), a.as_dict(), "x"):
        t.is_(a == other, False, f"range map == {other!r}")


def gen_mapclone(tier):
    for a in ("int", "str") if not thorough(tier) else M.ALPHABETS:
        for m in maps(2, (0, 1, 2), VALUES[:4] if not thorough(tier) else VALUES):
            for way in WAYS:
                yield (a, m, way)


def run_mapclone(case, t):
    from vistautils.range import immutablerangemap, ImmutableRangeMap

    a, items, way = case
    ep, probes = M.endpoints(a, 2)
    t.state(case)
    pairs = [(M.make(k, ep), v) for k, v in items]
    x = immutablerangemap(pairs)
    c = t.call(lambda: clone(x, way), f"{way} of range map {items}")
    w = f"{way} of range map {items}"
    t.true(c == x and x == c, f"{w} equals the original")
    t.eq(hash(c), hash(x), f"hash of {w}")
    for j, p in enumerate(probes):
        hit = [v for k, v in items if M.contains(k, j)]
        t.same(c[p], hit[0] if hit else None, f"({w})[{p!r}]")
    # later changes of the source leave the map alone
    pairs.append((M.make((-1, 4), ep), "later"))
    b = ImmutableRangeMap.builder()
    for k, v in items:
        b.put(M.make(k, ep), v)
    first = b.build()
    free = [r for r in M.all_ranges(2, empty=False) if not any(M.connected(r, k) for k, _ in items)]
    if free:
        b.put(M.make(free[0], ep), "later")
        second = b.build()
        t.eq(len(second.as_dict()), len(items) + 1, f"a builder used after build ({w})")
    for z in (x, first):
        t.eq({M.unmake(k, ep): v for k, v in z.as_dict().items()}, dict(items), f"{w}: entries afterwards")
        for j, p in enumerate(probes):
            hit = [v for k, v in items if M.contains(k, j)]
            t.same(z[p], hit[0] if hit else None, f"({w})[{p!r}] afterwards")


SPACES = [
    Space("snapshots", gen_snap, run_snap,
          lambda tier: "all histories of add/clear/snapshot/build up to length %d" % (5 if thorough(tier) else 4)),
    Space("set equality", gen_eq, run_eq, "all pairs of sets over 2 (thorough 3) endpoints, mutable and immutable"),
    Space("set clones", gen_clone, run_clone, "all sets over 2 and 3 (thorough 4) endpoints, cloned 8 ways"),
    Space("map equality", gen_mapeq, run_mapeq, "pairs of range maps with up to 2 entries over 2 endpoints"),
    Space("map clones", gen_mapclone, run_mapclone, "all range maps with up to 2 entries over 2 endpoints, cloned 8 ways"),
]
