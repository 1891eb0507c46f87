"""C07 range maps."""
import itertools

from mc.core import Space, thorough, sizes, Violation
from mc import rangemodel as M
from mc.checks.c04 import arrange, MANY_ORDERS
from mc.checks.c05 import many

VALUES = ("a", 0, "", None, False, 0.0, "b", 7, (), "c", 1, 2, 3, 4, 5)


def probe(t, m, items, ep, probes, ranges, what):
    items = sorted(items, key=lambda kv: kv[0])
    t.eq({M.unmake(k, ep): v for k, v in m.as_dict().items()}, dict(items), f"entries of {what}")
    t.is_(m.is_empty(), not items, f"{what}.is_empty()")
    for j, p in enumerate(probes):
        hit = [v for k, v in items if M.contains(k, j)]
        t.same(m[p], hit[0] if hit else None, f"{what}[{p!r}]")
        t.is_(p in m, bool(hit), f"{p!r} in {what}")
        left = [v for k, v in items if k[0] <= j - 1]
        t.same(m.get_from_rightmost_containing_or_below(p), left[-1] if left else None,
               f"{what}.get_from_rightmost_containing_or_below({p!r})")
        right = [v for k, v in items if k[1] >= j]
        t.same(m.get_from_leftmost_containing_or_above(p), right[0] if right else None,
               f"{what}.get_from_leftmost_containing_or_above({p!r})")
        # the names these two queries had before
        for old, want in (("get_from_maximal_containing_or_below", left[-1:]), ("get_from_minimal_containing_or_above", right[:1])):
            if hasattr(m, old):
                t.same(getattr(m, old)(p), want[0] if want else None, f"{what}.{old}({p!r})")
    for q in ranges:
        want = {v for k, v in items if M.encloses(q, k)}
        t.eq(set(m.get_enclosed_by(M.make(q, ep))), want, f"{what}.get_enclosed_by({q})")
        t.outcome(f"enclosed values {len(want)}")


def gen_build(tier):
    rs = M.all_ranges(2)
    for k in (0, 1, 2, 3):
        for keys in itertools.permutations(rs, k) if k < 3 else itertools.combinations(rs, k):
            yield ("int" if k != 2 else "str", 2, keys)
    if thorough(tier):
        for keys in itertools.permutations(rs, 3):
            yield ("int", 2, keys)
        for keys in itertools.combinations(M.all_ranges(3), 3):
            yield ("int", 3, keys)


def run_build(case, t):
    from vistautils.range import ImmutableRangeMap, immutablerangemap

    a, n, keys = case
    ep, probes = M.endpoints(a, n)
    ok = all(not M.empty(k) for k in keys) and not any(M.connected(x, y) for x, y in itertools.combinations(keys, 2))
    items = list(zip(keys, VALUES))
    t.state((n, keys))
    t.outcome("accepted" if ok else "refused")

    def real():
        return [(M.make(k, ep), v) for k, v in items]

    def via_builder():
        b = ImmutableRangeMap.builder()
        for k, v in real():
            if b.put(k, v) is not b:
                raise Violation("put does not return the builder")
        return b.build()

    forms = {"pairs": lambda: immutablerangemap(real()), "generator": lambda: immutablerangemap(iter(real())),
             "builder": via_builder}
    if not keys:
        forms["no arguments"] = lambda: immutablerangemap()
        forms["None"] = lambda: immutablerangemap(None)
    for form, f in forms.items():
        w = f"range map {items} from {form}"
        if not ok:
            t.raises(ValueError, f, w)
        else:
            m = t.call(f, w)
            probe(t, m, items, ep, probes, M.all_ranges(n), w)


def gen_states(tier):
    plan = [(a, 2) for a in M.ALPHABETS] + [("int", 3), ("str", 3), ("int", 4)]
    if thorough(tier):
        plan += [("str", 4), ("dense", 5), ("int", 6)]
    for a, n in plan:
        for m in range(2 ** (2 * n + 1)):
            yield (a, n, m)


def run_state(case, t):
    from vistautils.range import immutablerangemap

    a, n, mask = case
    ep, probes = M.endpoints(a, n)
    keys = M.runs(mask)
    items = [(k, VALUES[(i + mask) % len(VALUES)]) for i, k in enumerate(keys)]
    order = items[1::2] + items[::2]
    m = t.call(lambda: immutablerangemap([(M.make(k, ep), v) for k, v in order]), f"range map {order}")
    t.state((n, mask))
    probe(t, m, items, ep, probes, M.all_ranges(n), f"range map {order}")


def gen_many(tier):
    for i, n in enumerate(sizes(tier, 129)):
        yield (n, MANY_ORDERS[i % 4], i % 3)


def run_many(case, t):
    from vistautils.range import ImmutableRangeMap, immutablerangemap

    n, order, how = case
    ep, probes = M.endpoints("dense", 2 * n)
    rs, ranges = many(n)
    items = [(r, VALUES[i] if i < 9 else i) for i, r in enumerate(rs)]
    real = [(M.make(r, ep), v) for r, v in arrange(items, order)]
    if how == 0:
        b = ImmutableRangeMap.builder()
        for k, v in real:
            b.put(k, v)
        m = b.build()
    else:
        m = immutablerangemap(real if how == 1 else iter(real))
    t.state((n, order))
    probe(t, m, items, ep, probes, ranges, f"range map of {n} entries put {order}")
    # one key too many is refused wherever it lies
    for i in sorted({0, n // 2, n - 1}):
        for bad in ((rs[i][0], rs[i][1] + 1), (rs[i][1], rs[i][1] + 1), (rs[i][1], rs[i][1])):
            for place in (0, n // 2, n):
                more = real[:place] + [(M.make(bad, ep), "x")] + real[place:]
                t.raises(ValueError, lambda: immutablerangemap(more), f"range map of {n} entries put {order} and {bad}")


SPACES = [
    Space("construction", gen_build, run_build,
          "all ordered choices of up to 2 ranges and all sets of 3 over 2 endpoints (thorough: ordered 3, and 3 endpoints)"),
    Space("all maps, all probes", gen_states, run_state,
          lambda tier: "all maps keyed by maximal runs over n endpoints, n=2 (12 value types), 3, 4"
          + (", 5, 6" if thorough(tier) else "") + ", every probe value and range"),
    Space("many entries", gen_many, run_many,
          lambda tier: "maps of 8-%d entries, every probe value, ranges around and between 14 entries, one key too many in 27 ways" % max(sizes(tier, 129))),
]
