"""C02 algebra of ranges."""
import itertools

from mc.core import Space, thorough
from mc import rangemodel as M


def gen_pairs(tier):
    small = M.all_ranges(2)
    for a in M.ALPHABETS:
        for x in small:
            for y in small:
                yield (a, 2, x, y)
    n = 4 if not thorough(tier) else 7
    big = M.all_ranges(n)
    for x in big:
        for y in big:
            yield ("int", n, x, y)


def run_pair(case, t):
    a, n, x, y = case
    ep, probes = M.endpoints(a, n)
    rx, ry = M.make(x, ep), M.make(y, ep)
    w = f"{rx!r}, {ry!r}"
    t.state((n, x, y))
    t.is_(rx.encloses(ry), M.encloses(x, y), f"encloses({w})")
    t.is_(ry.encloses(rx), M.encloses(y, x), f"encloses reversed({w})")
    conn = M.connected(x, y)
    t.is_(rx.is_connected(ry), conn, f"is_connected({w})")
    t.is_(ry.is_connected(rx), conn, f"is_connected reversed({w})")
    t.is_(rx.intersects(ry), conn, f"intersects({w})")
    t.is_(ry.intersects(rx), conn, f"intersects reversed({w})")
    s = rx.span(ry)
    t.eq(M.unmake(s, ep), M.span(x, y), f"span({w})")
    M.observe(t, s, M.span(x, y), ep, probes, f"span({w})")
    t.eq(ry.span(rx), s, f"span commutes({w})")
    if conn:
        i = rx.intersection(ry)
        t.eq(M.unmake(i, ep), M.intersection(x, y), f"intersection({w})")
        M.observe(t, i, M.intersection(x, y), ep, probes, f"intersection({w})")
        t.eq(ry.intersection(rx), i, f"intersection commutes({w})")
        t.outcome("connected, intersection empty" if i.is_empty() else "connected")
    else:
        t.raises(ValueError, lambda: rx.intersection(ry), f"intersection({w})")
        t.raises(ValueError, lambda: ry.intersection(rx), f"intersection reversed({w})")
        t.outcome("not connected")
    M.observe(t, rx, x, ep, probes, f"{rx!r} afterwards")


def gen_triples(tier):
    n = 2 if not thorough(tier) else 3
    rs = M.all_ranges(n)
    for x in rs:
        for y in rs:
            yield ("int" if (x[0] + y[1]) % 2 else "str", n, x, y)


def run_triples(case, t):
    from vistautils.range import Range

    a, n, x, y = case
    ep, _ = M.endpoints(a, n)
    rx, ry = M.make(x, ep), M.make(y, ep)
    t.eq(rx.span(rx), rx, "span idempotent")
    t.eq(rx.intersection(rx), rx, "intersection idempotent")
    t.eq(rx.intersection(Range.all()), rx, "all is the identity of intersection")
    t.eq(rx.span(Range.all()), Range.all(), "all absorbs span")
    for z in M.all_ranges(n):
        rz = M.make(z, ep)
        w = f"{rx!r}, {ry!r}, {rz!r}"
        t.state((n, x, y, z))
        t.eq(rx.span(ry).span(rz), rx.span(ry.span(rz)), f"span associates({w})")
        whole = (max(x[0], y[0], z[0]), min(x[1], y[1], z[1]))
        for p, q, r, m in ((rx, ry, rz, (x, y, z)), (ry, rz, rx, (y, z, x))):
            if M.connected(m[0], m[1]) and whole[0] <= whole[1]:
                t.eq(M.unmake(p.intersection(q).intersection(r), ep), whole, f"intersection of three({w})")
                t.eq(M.unmake(p.intersection(q.intersection(r)), ep), whole, f"intersection associates({w})")
            elif M.connected(m[0], m[1]):
                t.raises(ValueError, lambda: p.intersection(q).intersection(r), f"intersection of three({w})")
        for coll in ([rx, ry, rz], (rz, rx, ry), [ry, rx, rz, rx]):
            t.eq(M.unmake(Range.create_spanning(coll), ep), (min(x[0], y[0], z[0]), max(x[1], y[1], z[1])),
                 f"create_spanning({w})")
    for coll in ([rx], (rx, rx)):
        t.eq(Range.create_spanning(coll), rx, "create_spanning of one range")
    t.eq(M.unmake(Range.create_spanning([rx, ry]), ep), M.span(x, y), "create_spanning of two")
    for none in ([], ()):
        t.raises(ValueError, lambda: Range.create_spanning(none), "create_spanning of nothing")


def gen_many(tier):
    n = 5
    for k in (4, 5) if not thorough(tier) else (4, 5, 6):
        for perm in itertools.permutations(range(k)):
            for shape in range(4):
                yield (n, perm, shape)


def run_many(case, t):
    from vistautils.range import Range

    n, perm, shape = case
    ep, _ = M.endpoints("int", n)
    base = [
        [(0, 1), (2, 3), (4, 5), (6, 7), (8, 9), (1, 2)],
        [(0, 9), (1, 8), (2, 7), (3, 6), (4, 5), (5, 5)],
        [(3, 3), (3, 4), (4, 4), (2, 3), (5, 5), (4, 5)],
        [(-1, 2), (4, 10), (3, 3), (5, 6), (2, 2), (-1, 0)],
    ][shape]
    rs = [base[i] for i in perm]
    t.state((shape, perm))
    got = Range.create_spanning([M.make(r, ep) for r in rs])
    t.eq(M.unmake(got, ep), (min(r[0] for r in rs), max(r[1] for r in rs)), f"create_spanning of {rs}")


SPACES = [
    Space("pairs", gen_pairs, run_pair,
          lambda tier: "all ordered pairs of ranges over 2 endpoints for 12 value types; over %d endpoints for int"
          % (7 if thorough(tier) else 4)),
    Space("triples", gen_triples, run_triples,
          lambda tier: "all ordered triples of ranges over %d endpoints" % (3 if thorough(tier) else 2)),
    Space("collections", gen_many, run_many, "all orders of 4 and 5 (thorough 6) ranges of 4 shapes"),
]
