"""C05 range-set queries agree with a scan over the members."""
from mc.core import Space, thorough, sizes
from mc import rangemodel as M
from mc.checks.c04 import build, ladder_mask, arrange, MANY_ORDERS, ROUTES


def queries(t, s, members, ranges, ep, probes, what):
    """members: model ranges ascending."""
    real = {r: M.make(r, ep) for r in ranges}

    def un(x):
        return None if x is None else M.unmake(x, ep)

    for j, v in enumerate(probes):
        inside = [r for r in members if M.contains(r, j)]
        t.is_(v in s, bool(inside), f"{v!r} in {what}")
        t.eq(un(s.range_containing(v)), inside[0] if inside else None, f"{what}.range_containing({v!r})")
        left = [r for r in members if r[0] <= j - 1]
        t.eq(un(s.rightmost_containing_or_below(v)), left[-1] if left else None,
             f"{what}.rightmost_containing_or_below({v!r})")
        right = [r for r in members if r[1] >= j]
        t.eq(un(s.leftmost_containing_or_above(v)), right[0] if right else None,
             f"{what}.leftmost_containing_or_above({v!r})")
        # the names these two queries had before
        for old, want in (("maximal_containing_or_below", left[-1:]), ("minimal_containing_or_above", right[:1])):
            if hasattr(s, old):
                t.eq(un(getattr(s, old)(v)), want[0] if want else None, f"{what}.{old}({v!r})")
    for q in ranges:
        rq = real[q]
        enc = [r for r in members if M.encloses(r, q)]
        t.is_(s.encloses(rq), bool(enc), f"{what}.encloses({rq!r})")
        t.eq(un(s.range_enclosing_range(rq)), enc[0] if enc else None, f"{what}.range_enclosing_range({rq!r})")
        within = {r for r in members if M.encloses(q, r)}
        got = [un(x) for x in s.ranges_enclosed_by(rq)]
        t.eq((set(got), len(got)), (within, len(within)), f"{what}.ranges_enclosed_by({rq!r})")
        over = {r for r in members if M.connected(r, q)}
        got = [un(x) for x in s.ranges_overlapping(rq)]
        t.eq((set(got), len(got)), (over, len(over)), f"{what}.ranges_overlapping({rq!r})")
        hit = any(M.connected(r, q) and not M.empty(M.intersection(r, q)) for r in members)
        t.is_(s.intersects(rq), hit, f"{what}.intersects({rq!r})")
        t.outcome(f"enclosed_by {len(within)} overlapping {min(len(over), 4)} intersects {hit}")
    t.eq([M.unmake(r, ep) for r in s.as_ranges()], members, f"{what} unchanged by queries")


def gen_states(tier):
    plan = [(a, 2) for a in M.ALPHABETS] + [("int", 3), ("dense", 3), ("str", 3), ("int", 4)]
    if thorough(tier):
        plan += [("falsy", 3), ("tuple", 3), ("str", 4), ("dense", 5), ("int", 6)]
    for a, n in plan:
        for m in range(2 ** (2 * n + 1)):
            yield (a, n, m)


def run_state(case, t):
    a, n, m = case
    ep, probes = M.endpoints(a, n)
    members = M.runs(m)
    t.state((n, m))
    s = build(m, ep, ROUTES[m % len(ROUTES)])
    queries(t, s, members, M.all_ranges(n), ep, probes, f"mutable {members}")
    queries(t, s.immutable_copy(), members, M.all_ranges(n), ep, probes, f"immutable {members}")


# --- queries before and after a change of the same set ------------------------------------

def gen_between(tier):
    n = 2
    ops = [("add", r) for r in M.all_ranges(n, empty=False)] + [("clear",)]
    if thorough(tier):
        ops += [("add", (0, 1), (2, 4)), ("clear", (1, 2)), ("clear", (0, 3)), ("all", (0, 1), (2, 3)), ("all", (-1, 0))]
    for m in range(1, 2 ** (2 * n + 1)):
        for op in ops:
            yield (n, m, op)


def ask(t, s, members, q, real, ep, probes, what):
    """All queries with one argument: an index into the probe values, or a range."""
    def un(x):
        return None if x is None else M.unmake(x, ep)

    if isinstance(q, int):
        v = probes[q]
        inside = [r for r in members if M.contains(r, q)]
        left = [r for r in members if r[0] <= q - 1]
        right = [r for r in members if r[1] >= q]
        t.is_(v in s, bool(inside), f"{v!r} in {what}")
        t.eq(un(s.range_containing(v)), inside[0] if inside else None, f"{what}.range_containing({v!r})")
        t.eq(un(s.rightmost_containing_or_below(v)), left[-1] if left else None,
             f"{what}.rightmost_containing_or_below({v!r})")
        t.eq(un(s.leftmost_containing_or_above(v)), right[0] if right else None,
             f"{what}.leftmost_containing_or_above({v!r})")
        return
    rq = real[q]
    enc = [r for r in members if M.encloses(r, q)]
    t.is_(s.encloses(rq), bool(enc), f"{what}.encloses({rq!r})")
    t.eq(un(s.range_enclosing_range(rq)), enc[0] if enc else None, f"{what}.range_enclosing_range({rq!r})")
    t.eq({un(x) for x in s.ranges_enclosed_by(rq)}, {r for r in members if M.encloses(q, r)},
         f"{what}.ranges_enclosed_by({rq!r})")
    t.eq({un(x) for x in s.ranges_overlapping(rq)}, {r for r in members if M.connected(r, q)},
         f"{what}.ranges_overlapping({rq!r})")
    t.is_(s.intersects(rq), any(M.connected(r, q) and not M.empty(M.intersection(r, q)) for r in members),
          f"{what}.intersects({rq!r})")
    t.is_(s.encloses_all([rq]), bool(enc), f"{what}.encloses_all([{rq!r}])")


def run_between(case, t):
    n, m, op = case
    ep, probes = M.endpoints("int", n)
    ranges = M.all_ranges(n, empty=False)
    real = {r: M.make(r, ep) for r in ranges}
    after = m
    t.state(case)
    if op[0] == "clear":
        after = 0
    for r in op[1:]:
        after |= M.mask(r)
    before_members, after_members = M.runs(m), M.runs(after)
    for kind in (range(len(probes)), ranges):
        for first in kind:
            for then in kind:
                s = build(m, ep, "runs")
                ask(t, s, before_members, first, real, ep, probes, f"{before_members}")
                if op[0] == "clear":
                    s.clear()
                if op[0] == "all":
                    s.add_all([real[r] for r in op[1:]])
                else:
                    for r in op[1:]:
                        s.add(real[r])
                ask(t, s, after_members, then, real, ep, probes,
                    f"{before_members} asked about {first}, then {op}: {after_members}")
                t.is_(s.is_empty(), after == 0, f"is_empty() after {op} on {before_members}")
                if after:
                    t.eq(M.unmake(s.span, ep), (after_members[0][0], after_members[-1][1]), f"span after {op}")


def gen_all(tier):
    n = 2 if not thorough(tier) else 3
    for m in range(2 ** (2 * n + 1)):
        for m2 in range(2 ** (2 * n + 1)):
            yield (n, m, m2)


def run_all(case, t):
    from vistautils.range import ImmutableRangeSet

    n, m, m2 = case
    ep, _ = M.endpoints("int", n)
    s = build(m, ep, "runs")
    qs = [M.make(r, ep) for r in M.runs(m2)]
    want = m2 & ~m == 0
    t.state((n, m, m2))
    im = s.immutable_copy()
    for x in (s, im):
        t.is_(x.encloses_all(qs), want, f"{M.runs(m)}.encloses_all(list {M.runs(m2)})")
        t.is_(x.encloses_all(q for q in qs), want, f"{M.runs(m)}.encloses_all(generator {M.runs(m2)})")
        t.is_(x.encloses_all(build(m2, ep, "segments")), want, f"{M.runs(m)}.encloses_all(range set {M.runs(m2)})")
        t.is_(x.encloses_all(ImmutableRangeSet.builder().add_all(reversed(qs)).build()), want,
              f"{M.runs(m)}.encloses_all(immutable {M.runs(m2)})")
    t.outcome(f"encloses_all {want}")


def gen_empty_all(tier):
    for m in range(32):
        for r in M.all_ranges(2):
            for q in M.all_ranges(2):
                yield (m, r, q)


def run_empty_all(case, t):
    m, r, q = case
    ep, _ = M.endpoints("int", 2)
    s = build(m, ep, "runs")
    want = all(any(M.encloses(x, y) for x in M.runs(m)) for y in (r, q))
    t.state((m, r, q))
    t.is_(s.encloses_all([M.make(r, ep), M.make(q, ep)]), want, f"{M.runs(m)}.encloses_all({r}, {q})")


def gen_ladder(tier):
    for n in (12,) if not thorough(tier) else (12, 24):
        for shape in range(4):
            for cut in range(0, 2 * n + 1, 1 if thorough(tier) else 5):
                yield (n, shape, cut)


def run_ladder(case, t):
    n, shape, cut = case
    ep, probes = M.endpoints("int", n)
    m = ladder_mask(n, shape) & ~(1 << cut)
    s = build(m, ep, "runs-down")
    t.state((n, m))
    queries(t, s, M.runs(m), M.all_ranges(n), ep, probes, f"ladder {shape} without {cut}")


def gen_many(tier):
    for i, n in enumerate(sizes(tier, 129)):
        yield (n, MANY_ORDERS[i % 4])


def many(n):
    """n separate members over 2n endpoints, and probing ranges around every tenth of them."""
    rs = [(4 * i, 4 * i + 1 + (1 if i % 3 == 0 else 0)) for i in range(n)]
    at = sorted({0, 1, 7, 8, 9, 15, 16, 17, n // 4, n // 3, n // 2, n // 2 + 1, n - 2, n - 1} & set(range(n)))
    probes = []
    for i in at:
        lo, hi = rs[i]
        probes += [(lo, hi), (lo, lo + 1), (hi, hi), (hi, hi + 1), (lo - 1, hi + 1)]
        probes += [(lo, rs[j][1]) for j in at if j > i] + [(hi, rs[j][0]) for j in at if j > i]
    probes += [(-1, 4 * n), (-1, rs[n // 2][1]), (rs[n // 2][0], 4 * n)]
    return rs, list(dict.fromkeys((a, b) for a, b in probes if a < 4 * n and b >= 0))


def run_many(case, t):
    from vistautils.range import RangeSet

    n, order = case
    ep, probes = M.endpoints("dense", 2 * n)
    rs, ranges = many(n)
    s = RangeSet.create_mutable()
    for r in arrange(rs, order):
        s.add(M.make(r, ep))
    t.state((n, order))
    queries(t, s, rs, ranges, ep, probes, f"{n} members added {order}")


SPACES = [
    Space("all states, all probes", gen_states, run_state,
          lambda tier: "all 2^(2n+1) sets over n endpoints (n=2 for 12 value types, n=3, 4"
          + (", 5, 6" if thorough(tier) else "") + "), every probe range and value, mutable and immutable"),
    Space("between changes", gen_between, run_between,
          "all sets over 2 endpoints, every query before and every query after every change of the same set"),
    Space("encloses_all", gen_all, run_all, "all pairs of sets over 2 (thorough 3) endpoints, 4 argument forms"),
    Space("encloses_all of loose ranges", gen_empty_all, run_empty_all,
          "all sets over 2 endpoints, all pairs of ranges, empty ones included"),
    Space("many members", gen_many, run_many,
          lambda tier: "sets of 8-%d members, every probe value, ranges around and between 14 members" % max(sizes(tier, 129))),
    Space("ladders", gen_ladder, run_ladder, "sets with many members, every probe range and value"),
]
