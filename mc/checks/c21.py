"""C21 unifying parameters."""
import itertools

from mc.core import Space, thorough
from mc import many
from mc.trees import Conflict, dicts, plain, merge, same, nested, listing, listed

NAMES = ("a", "b")


def unwrap(p, path):
    return p.namespace(path)


def make(items, form):
    from vistautils.parameters import Parameters

    d = plain(items)
    if form == "mapping":
        return d, ()
    if form == "root":
        return Parameters.from_mapping(d), ()
    if form == "namespace":
        return Parameters.from_mapping({"n": {"m": d, "z": 0}, "a": 1}).namespace("n.m"), ("n", "m")
    return Parameters.from_mapping({"a": d, "b": {"a": 1}}).namespace("a"), ("a",)


def gen_pairs(tier):
    left = dicts(NAMES, (0, [1]) if thorough(tier) else (0,), 2)
    right = dicts(NAMES, ("", "r") if thorough(tier) else ("",), 2)
    extra = dicts(NAMES, ([1],), 2), dicts(NAMES, ([],), 2)
    for a, b in itertools.chain(itertools.product(left, right), itertools.product(*extra) if not thorough(tier) else ()):
        for fa, fb in (("root", "mapping"), ("root", "root"), ("namespace", "short"), ("root", "namespace"), ("short", "mapping")):
            yield (a, b, fa, fb)
    # three names and three levels
    three = dicts(("a", "b", "c"), (1,), 1, 0, 3)
    for a in three:
        for b in three:
            yield (a, b, "root", "root")
    for a in dicts(("a",), (1,), 4, 0, 1):
        for b in dicts(("a",), (2,), 4, 0, 1):
            for fa, fb in (("root", "root"), ("namespace", "short")):
                yield (a, b, fa, fb)
    if thorough(tier):
        deep = dicts(NAMES, (3,), 3)
        for a in deep[::1]:
            for b in dicts(NAMES, (4,), 2) + deep[::97]:
                yield (a, b, "root", "root")


def run_pairs(case, t):
    from vistautils.parameters import Parameters

    ia, ib, fa, fb = case
    t.state(repr((ia, ib)))
    a, prefix = make(ia, fa)
    b, bprefix = make(ib, fb)
    da, db = plain(ia), plain(ib)
    w = f"unify of {da!r} ({fa}) with {db!r} ({fb})"
    try:
        want = merge(da, db)
    except Conflict:
        want = None
    if want is None:
        t.raises(IOError, lambda: a.unify(b), w)
        t.raises(IOError, lambda: a.unify(b, namespace_prefix=("some", "where")), w)
    else:
        r = t.call(lambda: a.unify(b), w)
        t.true(isinstance(r, Parameters), f"result of {w}")
        t.true(same(nested(r), want), f"result of {w}: {nested(r)!r}, not {want!r}")
        t.eq(listing(r), listed(want, prefix), f"namespaced_items of the result of {w}")
        t.true(r == Parameters.from_mapping(want, namespace_prefix=prefix), f"the result of {w} equals parameters of the merged dictionary")
        for k, v in want.items():
            if isinstance(v, dict):
                t.true(same(nested(r.namespace(k)), v), f"namespace {k} of the result of {w}")
                t.eq(listing(r.namespace(k)), listed(v, prefix + (k,)), f"namespaced_items of namespace {k} of the result of {w}")
        t.outcome("merged")
    t.true(same(nested(a), da), f"the old parameters after {w}: {nested(a)!r}")
    t.eq(listing(a), listed(da, prefix), f"names in the old parameters after {w}")
    if fb == "mapping":
        t.true(same(b, db), f"the new mapping after {w}: {b!r}")
    else:
        t.true(same(nested(b), db), f"the new parameters after {w}: {nested(b)!r}")
        t.eq(listing(b), listed(db, bprefix), f"names in the new parameters after {w}")


def gen_empty(tier):
    for a in dicts(NAMES, (0, "x", [1]), 2) + dicts(NAMES, (0,), 3):
        for f in ("root", "namespace"):
            yield (a, f)


def run_empty(case, t):
    from vistautils.parameters import Parameters

    items, form = case
    t.state(repr(items))
    p, prefix = make(items, form)
    d = plain(items)
    for e in ({}, Parameters.empty()):
        r = t.call(lambda: p.unify(e), f"unify of {d!r} with {e!r}")
        t.true(same(nested(r), d), f"unify of {d!r} with nothing: {nested(r)!r}")
        t.true(r == p, f"unify of {d!r} with nothing is equal to the original")
        t.eq(listing(r), listed(d, prefix), f"names in unify of {d!r} with nothing")
    r = t.call(lambda: Parameters.empty().unify(p), f"unify of nothing with {d!r}")
    t.true(same(nested(r), d), f"unify of nothing with {d!r}: {nested(r)!r}")
    t.eq(listing(r), listed(d), f"names in unify of nothing with {d!r}")
    r = t.call(lambda: p.unify(p), f"unify of {d!r} with itself")
    t.true(r == p, f"unify of {d!r} with itself")


def gen_triples(tier):
    pools = [dicts(NAMES, (v,), 2) for v in (1, 2, 3)]
    for case in itertools.product(*pools):
        yield case


def run_triples(case, t):
    from vistautils.parameters import Parameters

    t.state(repr(case))
    d = [plain(x) for x in case]
    p = [Parameters.from_mapping(plain(x)) for x in case]
    w = f"unify of {d}"
    try:
        want = merge(merge(d[0], d[1]), d[2])
    except Conflict:
        t.raises(IOError, lambda: p[0].unify(p[1]).unify(p[2]), w)
        t.raises(IOError, lambda: p[0].unify(p[1].unify(p[2])), w)
        return
    x = t.call(lambda: p[0].unify(p[1]).unify(p[2]), w)
    y = t.call(lambda: p[0].unify(p[1].unify(p[2])), w)
    t.true(same(nested(x), want) and same(nested(y), want), f"{w}: {nested(x)!r} and {nested(y)!r}, not {want!r}")
    t.true(x == y, f"{w}, grouped in two ways")
    t.eq(listing(x), listed(want), f"names in {w}")
    t.eq(listing(y), listed(want), f"names in {w}, grouped to the right")


SPACES = [
    Space("pairs", gen_pairs, run_pairs, lambda tier: "all pairs of dictionaries of up to 2 names per level and depth 2 over %d leaves a side, at the root or taken from namespaces, and others" % (1 if tier == "quick" else 2)),
    Space("nothing", gen_empty, run_empty, "every dictionary with nothing, and with itself"),
    Space("triples", gen_triples, run_triples, "all triples of dictionaries of up to 2 names per level and depth 2 over 1 leaf a side"),
]

SPACES += many.BY_CHECK["C21"]
