"""C20 parameters behave as the nested dictionary they were built from."""
import collections
import copy
import itertools
import types

from mc.core import Space, thorough, seqs
from mc import many
from mc.trees import ABSENT, dicts, plain, fresh, same, lookup, leaves_of, nested, listing, listed

LEAVES = (0, "", "x.y", False)
MORE_LEAVES = ([], 1.5, [1, {"a": [2]}], "\u00e9", True, -3, "a")
NAMES = ("a", "b")


def gen_trees(tier):
    for d in dicts(NAMES, LEAVES[:3] if not thorough(tier) else LEAVES, 2):
        yield d
    for d in dicts(NAMES, LEAVES[:1] if not thorough(tier) else LEAVES[:2], 3):
        yield d
    for v in MORE_LEAVES:
        for d in dicts(("a", "c d"), (v,), 2):
            yield d
    for names in (("", "a"), ("\u00e9", "a b"), ("a-b", "A"), ("1", "/")) + ODD_NAMES:
        for d in dicts(names, (1,), 2):
            yield d
    for d in dicts(("a", "b", "c"), ("v",), 2 if not thorough(tier) else 2, 0, 3):
        yield d
    yield (("a", ("ns", (("b", ("ns", (("a", ("ns", (("b", ("leaf", 7)),))),))),))),)


def paths_for(d):
    names = sorted({p for k, _ in leaves_of(d) for p in k.split(".")} | set(d) | {"a", "zz"})[:4]
    for p in seqs(names, 1, 3):
        yield ".".join(p)
    yield ".".join(names[:1] * 5)


def check_object(t, p, d, prefix, what):
    from vistautils.parameters import ParameterError, Parameters

    t.true(same(nested(p), d), f"as_nested_dicts of {what}: {nested(p)!r}")
    if hasattr(p, "as_mapping"):  # what as_nested_dicts replaced
        m = p.as_mapping()
        t.eq(list(m), list(d), f"as_mapping of {what}")
        t.true(same({k: nested(v) if isinstance(v, type(p)) else v for k, v in m.items()}, d), f"as_mapping of {what}")
    t.eq(listing(p), listed(d, prefix), f"namespaced_items of {what}")
    subs = p.sub_namespaces()
    t.eq(sorted((s.namespace_prefix, repr(sorted(listing(s)))) for s in subs),
         sorted((prefix + (k,), repr(listed(v, prefix + (k,)))) for k, v in d.items() if isinstance(v, dict)), f"sub_namespaces of {what}")
    for path in paths_for(d):
        want = lookup(d, path)
        w = f"{path!r} in {what}"
        t.is_(path in p, want is not ABSENT, w)
        if want is ABSENT:
            t.raises(ParameterError, lambda: p.get(path, object), f"get of absent {w}")
            t.is_(p.get_optional(path, object), None, f"get_optional of absent {w}")
            for dflt in (5, 0, "", False, [], "d"):
                t.is_(p.get_optional(path, type(dflt), default=dflt), dflt, f"get_optional with default of absent {w}")
                t.is_(p.get(path, type(dflt), default=dflt), dflt, f"get with default of absent {w}")
            t.raises(ParameterError, lambda: p.namespace(path), f"namespace of absent {w}")
            t.raises(ParameterError, lambda: p.string(path), f"string of absent {w}")
            t.is_(p.optional_namespace(path), None, f"optional_namespace of absent {w}")
            t.is_(p.has_namespace(path), False, f"has_namespace of absent {w}")
            e = p.namespace_or_empty(path)
            t.true(isinstance(e, Parameters) and nested(e) == {}, f"namespace_or_empty of absent {w}: {e!r}")
            t.eq(".".join(e.namespace_prefix), ".".join(prefix + (path,)), f"prefix of the empty namespace {w}")
        elif isinstance(want, dict):
            t.is_(p.has_namespace(path), True, f"has_namespace {w}")
            for how in (p.namespace, p.optional_namespace, p.namespace_or_empty, lambda x: p.get(x, Parameters), lambda x: p.get_optional(x, Parameters)):
                s = t.call(lambda: how(path), f"namespace {w}")
                t.true(isinstance(s, Parameters) and same(nested(s), want), f"namespace {w}: {s!r}")
                t.eq(listing(s), listed(want, prefix + tuple(path.split("."))), f"namespaced_items of namespace {w}")
                t.eq(tuple(s.namespace_prefix), prefix + tuple(path.split(".")), f"prefix of namespace {w}")
            t.raises(ParameterError, lambda: p.string(path), f"string of namespace {w}")
        else:
            t.true(same(p.get(path, object), want), f"get of {w}: {p.get(path, object)!r}")
            t.true(same(p.get_optional(path, object), want), f"get_optional of {w}")
            t.true(same(p.get_optional(path, object, default="dflt"), want), f"get_optional with default of {w}")
            t.true(same(p.get(path, object, default="dflt"), want), f"get with default of {w}")
            t.is_(p.has_namespace(path), False, f"has_namespace of leaf {w}")
            t.is_(p.optional_namespace(path), None, f"optional_namespace of leaf {w}")
            t.raises(ParameterError, lambda: p.namespace(path), f"namespace of leaf {w}")
            t.raises(ParameterError, lambda: p.namespace_or_empty(path), f"namespace_or_empty of leaf {w}")


def run_trees(case, t):
    from vistautils.parameters import Parameters

    t.state(repr(case))
    d = plain(case)
    given = plain(case)
    p = t.call(lambda: Parameters.from_mapping(given), f"from_mapping({d!r})")
    what = f"the parameters of {d!r}"
    check_object(t, p, d, (), what)
    t.true(same(given, d), f"the dictionary given to from_mapping afterwards: {given!r}")
    # the same content built in another way is equal
    rev = {k: v for k, v in reversed(list(d.items()))}
    for label, m in (
        ("in reverse order", rev),
        ("as an OrderedDict", collections.OrderedDict(plain(case))),
        ("as a read-only view", types.MappingProxyType(plain(case))),
        ("from its own nested dictionary", nested(p)),
    ):
        q = t.call(lambda: Parameters.from_mapping(m), f"from_mapping {label}")
        t.true(q == p and p == q and not (p != q), f"{what}, built again {label}, is equal")
        t.eq(hash(q), hash(p), f"hash of {what}, built again {label}")
        t.eq(listing(q), listed(d), f"namespaced_items of {what}, built again {label}")
    # parameters as values are namespaces (which keep the full names they were made with)
    embedded = {k: (Parameters.from_mapping(v) if isinstance(v, dict) else v) for k, v in plain(case).items()}
    q = t.call(lambda: Parameters.from_mapping(embedded), "from_mapping with parameters as values")
    t.true(same(nested(q), d), f"as_nested_dicts of {what}, built with parameters as values")
    for name, value in leaves_of(d):
        t.true(name in q and q.get(name, object) == value, f"{name} in {what}, built with parameters as values")
    # changing what it gave out changes nothing
    for x in (p.as_nested_dicts(),):
        try:
            x["new"] = 1
        except TypeError:
            pass
    t.true(same(nested(p), d), f"as_nested_dicts of {what} after changing an earlier result")
    q = Parameters.from_mapping(plain(case), namespace_prefix=("p", "q"))
    t.eq(listing(q), listed(d, ("p", "q")), f"namespaced_items of {what} under a prefix")
    if d:
        t.false(p == Parameters.empty(), f"{what} equals the empty parameters")
    else:
        t.true(p == Parameters.empty(), "no parameters equal the empty parameters")
    t.false(p == d or p == None, f"{what} equals something else")  # noqa
    t.outcome(f"{len(list(leaves_of(d)))} leaves")


def gen_prefix(tier):
    for d in dicts(NAMES, (0,), 2 if not thorough(tier) else 3):
        for prefix in (("p",), ("p", "q")):
            yield (d, prefix)


def run_prefix(case, t):
    from vistautils.parameters import Parameters

    items, prefix = case
    t.state(repr(case))
    d = plain(items)
    check_object(t, Parameters.from_mapping(plain(items), namespace_prefix=prefix), d, prefix, f"the parameters of {d!r} under {prefix}")
    outer = plain(items)
    for part in reversed(prefix):
        outer = {part: outer, "other": 1}
    check_object(t, Parameters.from_mapping(outer).namespace(".".join(prefix)), d, prefix, f"the namespace {prefix} with {d!r}")


ODD_NAMES = ((" a", "a"), ("a ", "a"), ("A", "a"), ("c d", "\u00e9"), ("-a", "a-"), ("%a%", "1"), ("a\n", "a"), ("None", "_"), ("A=B", "#"))


def gen_pairs(tier):
    pool = dicts(NAMES, (0,), 3) + dicts(NAMES, (0, "x"), 2) + dicts(("a", "b", "c"), ("v",), 2, 0, 3)
    for names in ODD_NAMES:
        pool += dicts(names, (" v ",), 2)
    for d in pool:
        if any(v == () for _, (k, v) in d if k == "ns") or "()" in repr([v for _, v in d]):
            continue  # empty namespaces cannot be written as pairs
        for sep in (".", "/", "::"):
            yield (d, sep)


def run_pairs(case, t):
    from vistautils.parameters import Parameters

    items, sep = case
    t.state(repr(case))
    d = plain(items)
    pairs = [(sep.join(k.split(".")), v) for k, v in leaves_of(d)]
    want = Parameters.from_mapping(plain(items))
    orders = itertools.permutations(pairs) if len(pairs) <= 3 else (pairs, pairs[::-1], pairs[1:] + pairs[:1], pairs[2:] + pairs[:2])
    for order in orders:
        kw = {} if sep == "." else {"namespace_separator": sep}
        for arg in (list(order), iter(order)):
            p = t.call(lambda: Parameters.from_key_value_pairs(arg, **kw), f"from_key_value_pairs({order})")
            t.true(same(nested(p), d), f"from_key_value_pairs({order}, {sep!r}): {nested(p)!r}")
            t.true(p == want, f"from_key_value_pairs({order}, {sep!r}) equals from_mapping({d!r})")
            t.eq(listing(p), listed(d), f"namespaced_items of from_key_value_pairs({order}, {sep!r})")


# --- values which are equal but not the same --------------------------------------------------
ALIKE = ((0, 0.0, False), (1, 1.0, True), (-2, -2.0), ((), ()), ([0], [False], [0.0]), ([1, [True]], [True, [1.0]]), ("a", "a"), (10 ** 16, 1e16))


def gen_alike(tier):
    for group in ALIKE:
        for a, b in itertools.product(group, repeat=2):
            for shape in ("top", "below", "both"):
                yield (a, b, shape)


def run_alike(case, t):
    from vistautils.parameters import Parameters

    a, b, shape = case
    t.state(repr(case))

    def build(v, first):
        d = {"k": fresh(v), "l": "x"} if first else {"l": "x", "k": fresh(v)}
        return Parameters.from_mapping({"top": d, "below": {"n": {"m": d}}, "both": {"k": fresh(v), "n": d}}[shape])

    p, q = build(a, True), build(b, False)
    w = f"parameters with {a!r} and with {b!r} as a value ({shape})"
    t.true(p == q and q == p and not p != q, f"{w} are equal")
    t.eq(hash(p), hash(q), f"hash of {w}")
    t.eq(len({p, q}), 1, f"the set of {w}")
    r = build([a, "different"], True)
    t.false(p == r or r == p, f"{w.replace(repr(b), 'something else')} are equal")


# --- pairs set one after the other: a later one replaces or adds to an earlier one ---------
VALUES = (1, "", None, [2], (("x", ("leaf", 3)),), (), (("a", ("ns", (("x", ("leaf", 4)),))),))
KEYS = ("a", "b", "a.b", "a.a", "a.a.x")


def value_of(v):
    return plain(v) if isinstance(v, tuple) else fresh(v)


def gen_assigned(tier):
    values = VALUES
    for n in (1, 2, 3) if not thorough(tier) else (1, 2, 3, 4):
        vs = values if n < 3 else (values[1:3] + values[4:] if n == 3 else (1, values[4], values[6]))
        for keys in itertools.product(KEYS, repeat=n):
            for chosen in itertools.product(vs, repeat=n):
                yield tuple(zip(keys, chosen))


def run_assigned(case, t):
    from vistautils.parameters import Parameters

    want, conflict = {}, False
    for k, v in case:
        cur = want
        *above, last = k.split(".")
        for part in above:
            if part in cur and not isinstance(cur[part], dict):
                conflict = True
                break
            cur = cur.setdefault(part, {})
        if conflict:
            break
        cur[last] = value_of(v)
    t.state(repr(case))
    pairs = [(k, value_of(v)) for k, v in case]
    kept = [(k, value_of(v)) for k, v in case]
    w = f"from_key_value_pairs({kept!r})"
    if conflict:  # a name below a leaf: refused or replaced, but nothing given is changed
        t.outcome("conflict")
        try:
            Parameters.from_key_value_pairs(pairs)
        except Exception:  # pylint:disable=broad-except
            pass
    else:
        p = t.call(lambda: Parameters.from_key_value_pairs(pairs), w)
        t.true(same(nested(p), want), f"{w}: {nested(p)!r}, not {want!r}")
        t.eq(listing(p), listed(want), f"namespaced_items of {w}")
        t.true(p == Parameters.from_mapping(want), f"{w} equals from_mapping({want!r})")
    t.true(all(same(a[1], b[1]) for a, b in zip(pairs, kept)) and len(pairs) == len(kept), f"the pairs given to {w} afterwards: {pairs!r}")


# --- null values: kept and listed like any other ---------------------------------------------
def gen_null(tier):
    yield from dicts(NAMES, (None, 0) if not thorough(tier) else (None, 0, ""), 2)
    yield from dicts(NAMES, (None,), 3)


def run_null(case, t):
    from vistautils.parameters import Parameters

    t.state(repr(case))
    d = plain(case)
    p = t.call(lambda: Parameters.from_mapping(plain(case)), f"from_mapping({d!r})")
    w = f"the parameters of {d!r}"
    t.true(same(nested(p), d), f"as_nested_dicts of {w}: {nested(p)!r}")
    t.eq(listing(p), listed(d), f"namespaced_items of {w}")
    q = Parameters.from_mapping(nested(p))
    t.true(q == p and same(nested(q), d), f"{w}, built again from its own nested dictionary")
    for name, v in leaves_of(d):
        if v is not None:
            t.eq(p.get(name, object), v, f"{name!r} in {w}")


BAD = (
    ("mapping", {"a.b": 1}), ("mapping", {".": 1}), ("mapping", {"a": {"b.c": 1}}), ("mapping", {"a": {"b": {"x.": {}}}}), ("mapping", {"ok": 1, "a": {".x": 0}}),
    ("mapping", [("a", 1)]), ("mapping", None), ("mapping", "ab"),
    ("pairs", (("", 1),)), ("pairs", (("a", 1), ("", 2))), ("pairs/", (("a.b", 1),)), ("pairs/", (("x/a.b", 1),)), ("pairs/", (("a.b/x", 1),)),
)


def gen_bad(tier):
    for i in range(len(BAD)):
        yield i


def run_bad(case, t):
    from vistautils.parameters import Parameters

    kind, x = BAD[case]
    t.state(case)
    if kind == "mapping":
        t.raises(Exception, lambda: Parameters.from_mapping(x), f"from_mapping({x!r})")
    elif kind == "pairs":
        t.raises(Exception, lambda: Parameters.from_key_value_pairs(x), f"from_key_value_pairs({x!r})")
    else:
        t.raises(Exception, lambda: Parameters.from_key_value_pairs(x, namespace_separator="/"), f"from_key_value_pairs({x!r}, '/')")


HOLES = ("a", "a.b", "a.", ".a", "a..b", "..", ".", "a.b.", "b")


def gen_holes(tier):
    for n in (1, 2) if not thorough(tier) else (1, 2, 3):
        for names in itertools.permutations(HOLES, n):
            yield names


def run_holes(case, t):
    """Names with empty components are refused or kept apart from those without."""
    from vistautils.parameters import Parameters, ParameterError

    t.state(case)
    w = f"from_key_value_pairs with the names {case}"
    try:
        p = Parameters.from_key_value_pairs([(k, "v" + k) for k in case])
    except (ParameterError, ValueError, RuntimeError, TypeError, KeyError, AttributeError) as e:
        t.outcome("refused " + type(e).__name__)
        holes = [k for k in case if "" in k.split(".")]
        clash = any(a != b and (b + ".").startswith(a + ".") for a in case for b in case)
        t.true(holes or clash, f"{w} was refused: {e}")
        return
    t.outcome("kept")
    want = {}
    for k in case:
        for other in [o for o in want if (o + ".").startswith(k + ".") or (k + ".").startswith(o + ".")]:
            del want[other]  # a leaf and a namespace of the same name: unsettled
            want.setdefault("", None)
        want[k] = "v" + k
    settled = "" not in want
    want.pop("", None)
    for k, v in want.items():
        t.eq(t.call(lambda: p.string(k), f"{k!r} in {w}"), v, f"{k!r} in {w}")
    if settled:
        for k in HOLES:
            if k not in want and not any((x + ".").startswith(k + ".") for x in want):
                t.is_(k in p, False, f"{k!r} in {w}")
        t.eq(dict(p.namespaced_items()), want, f"namespaced_items of {w}")


SPACES = [
    Space("names with holes", gen_holes, run_holes, lambda tier: "all sequences of up to %d of 9 names, most with empty components" % (3 if thorough(tier) else 2)),
    Space("trees", gen_trees, run_trees, lambda tier: "every dictionary of up to 2 names per level and depth 2 over 3 leaves, depth 3 over 1 leaf, and others; every path of up to 3 names" if tier == "quick"
          else "every dictionary of up to 2 names per level and depth 2 over 4 leaves, depth 3 over 2 leaves, and others; every path of up to 3 names"),
    Space("namespaces", gen_prefix, run_prefix, "every dictionary of depth 2 (thorough 3) below 2 prefixes"),
    Space("pairs", gen_pairs, run_pairs, "every dictionary as key-value pairs (9 pairs of odd names, such as some alike but for case or blanks, included), every order of up to 3 pairs, 3 separators"),
    Space("pairs in turn", gen_assigned, run_assigned, lambda tier: "all sequences of up to %d pairs over 5 names and 7 values (4 values for 3 pairs, 3 for 4) with repeated names and namespaces as values; the values given are not changed" % (4 if tier == "thorough" else 3)),
    Space("null values", gen_null, run_null, "every dictionary of depth 2 with null leaves, depth 3 with nothing else"),
    Space("alike", gen_alike, run_alike, "8 groups of equal values of different types, in 3 places"),
    Space("refused", gen_bad, run_bad, "names with separators, empty names, non-mappings"),
]

SPACES += many.BY_CHECK["C20"]
