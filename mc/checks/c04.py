"""C04 a mutable range set is the coalesced union of what was added."""
from mc.core import Space, thorough, seqs, sizes
from mc import rangemodel as M


def observe(t, s, mask, ep, what):
    runs = M.runs(mask)
    got = [M.unmake(r, ep) for r in s.as_ranges()]
    t.eq(got, runs, f"members after {what}")
    t.is_(s.is_empty(), mask == 0, f"is_empty() after {what}")
    t.eq(len(s), len(runs), f"len() after {what}")
    if mask:
        t.eq(M.unmake(s.span, ep), (runs[0][0], runs[-1][1]), f"span after {what}")
    else:
        t.raises(ValueError, lambda: s.span, f"span after {what}")
    t.state((len(ep), mask))


def build(mask, ep, route):
    """A real mutable set in state mask, reached by one of several routes."""
    from vistautils.range import RangeSet

    s = RangeSet.create_mutable()
    n = len(ep)
    if route == "runs":
        for r in M.runs(mask):
            s.add(M.make(r, ep))
    elif route == "runs-down":
        for r in reversed(M.runs(mask)):
            s.add(M.make(r, ep))
    elif route == "segments":  # one elementary segment at a time, outside in
        segs = [j for j in range(2 * n + 1) if mask >> j & 1]
        order = []
        while segs:
            order.append(segs.pop(0))
            if segs:
                order.append(segs.pop())
        for j in order:
            s.add(M.make((j - 1, j), ep))
    elif route == "refilled":  # from a non-initial state: everything, cleared, then down
        s.add(M.make((-1, 2 * n), ep))
        s.clear()
        for r in M.runs(mask):
            mid = (r[0] + r[1]) // 2
            s.add(M.make((r[0], r[1]), ep))
            if r[0] < mid >= 0:
                s.add(M.make((r[0], mid), ep))
    return s


ROUTES = ("runs", "runs-down", "segments", "refilled")


# --- explicit-state exploration to the fixpoint -------------------------------------------

def gen_states(tier):
    """Breadth-first over the model: every reachable state, then every transition from it."""
    plan = [(a, 2) for a in M.ALPHABETS] + [("int", 3), ("str", 3)]
    if thorough(tier):
        plan += [(a, 3) for a in M.ALPHABETS if a not in ("int", "str")] + [("int", 4), ("dense", 4), ("int", 5)]
    else:
        plan += [("int", 4)]
    for a, n in plan:
        ops = [M.mask(r) for r in M.all_ranges(n)]
        seen, frontier = {0}, [0]
        while frontier:
            nxt = []
            for m in frontier:
                yield (a, n, m)
                for o in ops:
                    if m | o not in seen:
                        seen.add(m | o)
                        nxt.append(m | o)
            frontier = nxt
        assert len(seen) == 2 ** (2 * n + 1)


def run_state(case, t):
    a, n, m = case
    ep, _ = M.endpoints(a, n)
    for route in ROUTES:
        observe(t, build(m, ep, route), m, ep, f"reaching {M.runs(m)} by {route}")
    for k, r in enumerate(M.all_ranges(n)):
        s = build(m, ep, ROUTES[k % len(ROUTES)])
        w = f"{M.runs(m)} + {r}"
        t.is_(s.add(M.make(r, ep)), s, f"add returns the set itself ({w})")
        observe(t, s, m | M.mask(r), ep, w)
    s = build(m, ep, "runs")
    s.clear()
    observe(t, s, 0, ep, f"{M.runs(m)} cleared")
    for r in M.all_ranges(n)[:: max(1, n)]:
        s.add(M.make(r, ep))
        observe(t, s, M.mask(r), ep, f"{M.runs(m)} cleared + {r}")
        s.clear()


# --- all histories without deduplication --------------------------------------------------

def _ops(n):
    rs = [r for r in M.all_ranges(n)]
    return [("add", r) for r in rs] + [("clear",)]


def gen_hist(tier):
    small = [("add", r) for r in M.all_ranges(1)] + [("clear",)]
    for h in seqs(small, 1, 3 if not thorough(tier) else 5):
        yield (1, h)
    for h in seqs(_ops(2), 1, 3 if not thorough(tier) else 4):
        yield (2, h)


def run_hist(case, t):
    from vistautils.range import RangeSet

    n, hist = case
    ep, _ = M.endpoints("int" if len(hist) % 2 else "str", n)
    s, m = RangeSet.create_mutable(), 0
    for k, op in enumerate(hist):
        if op[0] == "clear":
            s.clear()
            m = 0
        else:
            s.add(M.make(op[1], ep))
            m |= M.mask(op[1])
        observe(t, s, m, ep, repr(hist[: k + 1]))


# --- bulk forms ---------------------------------------------------------------------------

BULK = ("list", "tuple", "generator", "mutable set", "immutable set", "builder", "builder add_all", "chain",
        "builder after build")


def gen_bulk(tier):
    rs = M.all_ranges(2)
    for start in (0, 0b00110, 0b10001) if not thorough(tier) else range(32):
        for h in seqs(rs, 0, 2):
            yield (start, h)
    pts = [(0, 1), (1, 2), (2, 3), (0, 0), (-1, 0), (1, 1), (3, 4)]
    for h in seqs(pts, 3, 3 if not thorough(tier) else 5):
        yield (0, h)


def run_bulk(case, t):
    from vistautils.range import ImmutableRangeSet, RangeSet

    start, hist = case
    ep, _ = M.endpoints("int", 2)
    rs = [M.make(r, ep) for r in hist]
    added = 0
    for r in hist:
        added |= M.mask(r)
    for form in BULK:
        s = build(start, ep, "runs")
        m = start | added
        w = f"{M.runs(start)} + {hist} as {form}"
        if form in ("list", "tuple"):
            src = list(rs) if form == "list" else tuple(rs)
            t.is_(s.add_all(src), s, f"add_all returns the set itself ({w})")
            t.eq(len(src), len(rs), f"the added collection is unchanged ({w})")
        elif form == "generator":
            s.add_all(x for x in rs)
        elif form == "mutable set":
            o = RangeSet.create_mutable().add_all(rs)
            t.is_(s.add_all(o), s, f"add_all returns the set itself ({w})")
            observe(t, o, added, ep, f"being added to another ({w})")
            # the two stay two sets: what happens to either later is not seen in the other
            s.add(M.make((1, 2), ep))
            m |= M.mask((1, 2))
            observe(t, o, added, ep, f"being added to another that then grew ({w})")
            o.add(M.make((-1, 0), ep))
            observe(t, s, m, ep, f"the added set grew ({w})")
            o.clear()
            observe(t, s, m, ep, f"the added set was cleared ({w})")
            o.add_all(s)
            s.clear()
            observe(t, o, m, ep, f"being added to the set added before and cleared ({w})")
            s.add_all(o)
        elif form == "immutable set":
            o = ImmutableRangeSet.builder().add_all(rs).build()
            s.add_all(o)
            observe(t, o, added, ep, f"being added to another ({w})")
            s.add(M.make((1, 2), ep))
            m |= M.mask((1, 2))
            observe(t, o, added, ep, f"being added to another that then grew ({w})")
        elif form == "builder":
            b = ImmutableRangeSet.builder()
            for x in rs:
                t.is_(b.add(x), b, f"builder add returns the builder ({w})")
            s, m = b.build(), added
        elif form == "builder add_all":
            b = ImmutableRangeSet.builder()
            t.is_(b.add_all(iter(rs)), b, f"builder add_all returns the builder ({w})")
            s, m = b.build(), added
        elif form == "chain":
            c = s
            for x in rs:
                c = c.add(x)
            s = c
        else:
            b = ImmutableRangeSet.builder()
            for x in rs:
                b.add(x)
                b.build()
            s, m = b.build(), added
        observe(t, s, m, ep, w)


# --- long ladders -------------------------------------------------------------------------

def gen_ladder(tier):
    for n in (16,) if not thorough(tier) else (16, 60):
        for shape in range(4):
            for r in M.all_ranges(n):
                yield (n, shape, r)


def ladder_mask(n, shape):
    return sum({0: 1 << j if j % 2 == 0 else 0,  # open gaps between all endpoints
                1: 1 << j if j % 2 == 1 else 0,  # all points
                2: 1 << j if j % 4 in (1, 2) else 0,  # [a, b)
                3: 1 << j if j % 4 in (1, 2, 3) and 4 < j < 2 * n - 4 else 0}[shape]  # [a, b]
               for j in range(2 * n + 1))


def run_ladder(case, t):
    n, shape, r = case
    ep, _ = M.endpoints("dense", n)
    m = ladder_mask(n, shape)
    s = build(m, ep, "runs" if r[0] % 2 else "runs-down")
    observe(t, s, m, ep, f"building ladder {shape}")
    s.add(M.make(r, ep))
    observe(t, s, m | M.mask(r), ep, f"ladder {shape} + {r}")


# --- many members -------------------------------------------------------------------------

MANY_ORDERS = ("ascending", "descending", "outside in", "odd then even")


def arrange(items, order):
    items = list(items)
    if order == "descending":
        return items[::-1]
    if order == "outside in":
        out = []
        while items:
            out.append(items.pop(0))
            items.reverse()
        return out
    if order == "odd then even":
        return items[1::2] + items[::2]
    return items


def gen_many(tier):
    for n in sizes(tier, 129):
        for order in MANY_ORDERS:
            yield (n, order)


def run_many(case, t):
    from vistautils.range import ImmutableRangeSet, RangeSet

    n, order = case
    ep, _ = M.endpoints("dense", 2 * n)
    rs = [(4 * i, 4 * i + 1 + (1 if i % 3 == 0 else 0)) for i in range(n)]  # n separate members
    full = 0
    for r in rs:
        full |= M.mask(r)
    real = [M.make(r, ep) for r in arrange(rs, order)]
    s = RangeSet.create_mutable()
    for r in real:
        s.add(r)
    w = f"{n} ranges added {order}"
    observe(t, s, full, ep, w)
    observe(t, RangeSet.create_mutable().add_all(iter(real)), full, ep, w + " at once")
    observe(t, ImmutableRangeSet.builder().add_all(real).build(), full, ep, w + " to a builder")
    # one more range that swallows k members, at the start, in the middle and at the end
    for k in sorted({1, 2, 7, 8, 9, 15, 16, 17, n // 2, n - 1, n}):
        if k <= n:
            for first in sorted({0, (n - k) // 2, n - k}):
                s = RangeSet.create_mutable().add_all(real)
                r = (rs[first][0], rs[first + k - 1][1])
                s.add(M.make(r, ep))
                observe(t, s, full | M.mask(r), ep, f"{w}, then one over {k} members from {first}")


SPACES = [
    Space("all states, all transitions", gen_states, run_state,
          lambda tier: "explicit-state search to fixpoint: all 2^(2n+1) sets over n endpoints, every add and clear from "
          "each, each state reached by 4 routes; n=2 for 12 value types, n=3 and 4" + (", 5" if thorough(tier) else "")),
    Space("histories", gen_hist, run_hist,
          lambda tier: "all histories of add/clear over 2 endpoints up to length %d" % (4 if thorough(tier) else 3)),
    Space("bulk forms", gen_bulk, run_bulk, "all sequences of up to 2 (or 3 chosen) ranges in 9 forms of bulk addition"),
    Space("many members", gen_many, run_many,
          lambda tier: "sets of 8-%d members added in 4 orders, then a range over k of them at the start, middle and end" % max(sizes(tier, 129))),
    Space("ladders", gen_ladder, run_ladder, "every range added to sets with many members"),
]
