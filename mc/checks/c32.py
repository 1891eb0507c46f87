"""C32 precondition checks and small utilities accept and reject exactly as documented."""
import collections
import collections.abc
import itertools
import os
from pathlib import Path, PurePosixPath

from mc import many
from mc.core import Space, thorough, seqs


class Outer:
    class Inner:
        class Innermost:
            pass


class Sub(Outer):
    pass


class Falsy:
    def __bool__(self):
        return False


class FalsySub(Falsy):
    pass


class Alike:
    """Equal to everything, None included."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 7


VALUES = {
    "None": None, "0": 0, "1": 1, "-1": -1, "False": False, "True": True, "''": "", "'a'": "a", "'None'": "None", "' '": " ", "'\\n'": "\n", "'0'": "0", "inf": float("inf"), "-0.0": -0.0, "range(0)": range(0), "frozenset()": frozenset(), "1j": 1j, "0j": 0j, "b''": b"", "0.0": 0.0, "1.5": 1.5, "[]": [], "[0]": [0], "()": (), "(1,)": (1,), "{}": {}, "{'a': 1}": {"a": 1},
    "set()": set(), "object": object(), "Outer()": Outer(), "Sub()": Sub(), "Falsy()": Falsy(), "FalsySub()": FalsySub(), "\u00e9": "\u00e9", "int": int, "Outer": Outer, "Path": Path("."), "Alike()": Alike(),
}
CLASSES = {
    "int": int, "str": str, "float": float, "list": list, "tuple": tuple, "dict": dict, "object": object, "NoneType": type(None), "Outer": Outer, "Sub": Sub, "Falsy": Falsy, "FalsySub": FalsySub, "type": type, "bytes": bytes,
    "(int, str)": (int, str), "(str, NoneType)": (str, type(None)), "(Outer, (int, (list,)))": (Outer, (int, (list,))), "()": (), "Mapping": collections.abc.Mapping,
}
MESSAGES = (None, "", "a message", "\u00e9 {} {0}")


def refused(t, types, f, message, w):
    e = t.raises(types, f, w)
    if message:
        t.true(message in str(e), f"the message {str(e)!r} of {w}")


def gen_values(tier):
    for v in VALUES:
        for m in MESSAGES:
            yield (v, m)


def run_values(case, t):
    from vistautils.preconditions import check_arg, check_args_are_none, check_args_not_none, check_not_none, check_state

    label, m = case
    x = VALUES[label]
    t.state(case)
    forms = lambda f, *a: ([lambda: f(*a)] if m is None else [lambda: f(*a, m), lambda: f(*a, msg=m)])  # noqa
    for f in forms(check_not_none, x):
        if x is None:
            refused(t, ValueError, f, m, f"check_not_none({label}, {m!r})")
        else:
            t.is_(t.call(f, f"check_not_none({label})"), x, f"check_not_none({label})")
    for f in forms(check_arg, x):
        if x:
            t.call(f, f"check_arg({label})")
        else:
            refused(t, ValueError, f, m, f"check_arg({label}, {m!r})")
    for f in forms(check_state, x):
        if x:
            t.call(f, f"check_state({label})")
        else:
            refused(t, AssertionError, f, m, f"check_state({label}, {m!r})")
    for args, text in (((), "%"), ((1,), "got %s"), ((None, "x"), "%s and %r"), ((0,), "%d items")):
        if args:
            f = lambda: check_arg(x, text, args)  # noqa
            if x:
                t.call(f, f"check_arg({label}, {text!r}, {args})")
            else:
                refused(t, ValueError, f, text % args, f"check_arg({label}, {text!r}, {args})")
    kw = {} if m is None else {"msg": m}
    for n in (0, 1, 2):
        for others in itertools.product(("None", "0", "'a'"), repeat=n):
            for place in range(n + 1):
                args = [VALUES[o] for o in others]
                args.insert(place, x)
                w = f"({args}, {kw})"
                if all(a is None for a in args):
                    t.call(lambda: check_args_are_none(*args, **kw), "check_args_are_none" + w)
                else:
                    refused(t, ValueError, lambda: check_args_are_none(*args, **kw), m, "check_args_are_none" + w)
                if any(a is None for a in args):
                    refused(t, ValueError, lambda: check_args_not_none(*args, **kw), m, "check_args_not_none" + w)
                else:
                    t.call(lambda: check_args_not_none(*args, **kw), "check_args_not_none" + w)
    t.call(lambda: check_args_are_none(), "check_args_are_none()")
    t.call(lambda: check_args_not_none(), "check_args_not_none()")


def gen_instances(tier):
    for v in VALUES:
        for c in CLASSES:
            yield (v, c)


def run_instances(case, t):
    from vistautils.preconditions import check_all_isinstance, check_isinstance, check_issubclass, check_opt_isinstance

    label, cls = case
    x, c = VALUES[label], CLASSES[cls]
    t.state(case)
    ok = isinstance(x, c)
    w = f"({label}, {cls})"
    for f, accepted in ((check_isinstance, ok), (check_opt_isinstance, ok or x is None)):
        if accepted:
            t.is_(t.call(lambda: f(x, c), f.__name__ + w), x, f.__name__ + w)
        else:
            t.raises(TypeError, lambda: f(x, c), f.__name__ + w)
    for form in (list, tuple, iter):
        for items in ([x], [x, x], [1, x], [x, "a"], [x, 1, "a"]):
            w = f"check_all_isinstance({form.__name__} of {items!r}, {cls})"
            if all(isinstance(i, c) for i in items):
                t.call(lambda: check_all_isinstance(form(items), c), w)
            else:
                t.raises(TypeError, lambda: check_all_isinstance(form(items), c), w)
    t.call(lambda: check_all_isinstance([], c), "check_all_isinstance of nothing")
    if isinstance(x, type):
        w = f"check_issubclass({label}, {cls})"
        if issubclass(x, c):
            t.is_(t.call(lambda: check_issubclass(x, c), w), x, w)
        else:
            t.raises(TypeError, lambda: check_issubclass(x, c), w)
    for a, b in itertools.product((Outer, Sub, int, bool, str, Outer.Inner), repeat=2):
        if issubclass(a, b):
            t.is_(check_issubclass(a, b), a, f"check_issubclass({a}, {b})")
        else:
            t.raises(TypeError, lambda: check_issubclass(a, b), f"check_issubclass({a}, {b})")


MEMBERS = ("None", "0", "1", "False", "''", "'a'", "[]", "0.0", "()", "Falsy()")


def gen_in(tier):
    for legal in seqs(MEMBERS, 0, 3 if thorough(tier) else 2):
        yield legal
    yield ("'a'",) * 9
    yield ("'a'",) * 10
    yield ("0",) * 11
    yield ("0",) * 40


def run_in(case, t):
    from vistautils.preconditions import check_in

    legal = [VALUES[x] for x in case]
    t.state(case)
    for label in MEMBERS + ("'None'", "1.5"):
        x = VALUES[label]
        for form in (list, tuple, collections.deque):
            for kw in ({}, {"item_name": "the thing"}):
                w = f"check_in({label}, {form.__name__} of {case}, {kw})"
                if x in legal:
                    t.call(lambda: check_in(x, form(legal), **kw), w)
                else:
                    refused(t, ValueError, lambda: check_in(x, form(legal), **kw), kw.get("item_name"), w)


def gen_limited(tier):
    n = 14 if not thorough(tier) else 30
    for size in range(0, n):
        for limit in range(-2, n + 2):
            yield (size, limit)
    for size, limit in ((100, 10), (1000, 999), (1000, 0), (5, 10 ** 9)):
        yield (size, limit)


def run_limited(case, t):
    from vistautils.misc_utils import str_list_limited

    size, limit = case
    t.state(case)
    for label, items in (("numbers", [i * 7 + 100000 for i in range(size)]), ("texts", [f"it's {i}\n" for i in range(size)]), ("None", [None] * size), ("mixed", [[7], "", None, 0.5][: size] + list(range(max(0, size - 4))))):
        for form in (list, tuple, iter, collections.deque, lambda x: (y for y in x)):
            w = f"str_list_limited of {size} {label}, limit {limit}"
            if limit < 0:
                t.raises(ValueError, lambda: str_list_limited(form(items), limit), w)
                continue
            got = t.call(lambda: str_list_limited(form(items), limit), w)
            if size <= limit:
                t.eq(got, str(items), w)
            else:
                head = str(items[:limit])[:-1]
                t.true(got.startswith(head) and got[len(head) :].strip() in (f"and {size - limit} more]", f"... and {size - limit} more]", f", and {size - limit} more]"), f"{w}: {got!r}")


def gen_names(tier):
    for s in seqs("a.b ", 0, 7 if thorough(tier) else 6):
        yield "".join(s)
    for s in ("\u00e9.txt", "a.tar.gz", "no extension", "a.b.c.d.e", "x" * 300 + ".y", "a.", "a..", "a...b"):
        yield s


def run_names(case, t):
    from vistautils.misc_utils import pathify, strip_extension

    t.state(case)
    parts = case.split(".")
    if not case.startswith("."):
        want = case if len(parts) == 1 else ".".join(parts[:-1])
        t.eq(t.call(lambda: strip_extension(case), f"strip_extension({case!r})"), want, f"strip_extension({case!r})")
    for s in (case, "/" + case, "x/" + case, case + "/y"):
        p = t.call(lambda: pathify(s), f"pathify({s!r})")
        t.true(isinstance(p, Path) and p == Path(s), f"pathify({s!r}): {p!r}")
        q = Path(s)
        t.is_(t.call(lambda: pathify(q), f"pathify of a path"), q, f"pathify of the path {s!r}")


def gen_flatten(tier):
    inner = ((), (0,), (None, ""), ((1, 2), (3,)), ("ab",))
    for s in seqs(inner, 0, 4 if thorough(tier) else 3):
        yield s


def run_flatten(case, t):
    from vistautils.misc_utils import flatten_once_to_list

    t.state(case)
    want = [x for xs in case for x in xs]
    for outer in (list, tuple, iter):
        for inner in (list, tuple, iter):
            got = t.call(lambda: flatten_once_to_list(outer([inner(x) for x in case])), "flatten_once_to_list")
            t.true(type(got) is list, f"type of {got!r}")
            t.deep(got, want, f"flatten_once_to_list({case})")
    t.eq(flatten_once_to_list(["ab", "", "c"]), ["a", "b", "c"], "flatten_once_to_list of strings")
    # everything which can be iterated over is flattened to what iterating gives
    for make in (dict.fromkeys, lambda xs: dict.fromkeys(xs, "v").keys(), lambda xs: {x: i for i, x in enumerate(xs)}.items(), collections.OrderedDict.fromkeys, collections.deque, lambda xs: range(len(xs)), lambda xs: (x for x in xs), lambda xs: bytes(range(len(xs)))):
        given = [make(x) for x in case]
        want = [x for xs in [make(x) for x in case] for x in xs]
        t.deep(t.call(lambda: flatten_once_to_list(given), "flatten_once_to_list"), want, f"flatten_once_to_list of {given!r}")
        t.deep(flatten_once_to_list({i: 0 for i in case}), [x for xs in dict.fromkeys(case) for x in xs], f"flatten_once_to_list of a dictionary of {case}")


TYPES = {
    "int": (int, "int"), "str": (str, "str"), "object": (object, "object"), "NoneType": (type(None), "NoneType"), "list": (list, "list"), "ValueError": (ValueError, "ValueError"),
    "Outer": (Outer, "mc.checks.c32.Outer"), "Inner": (Outer.Inner, "mc.checks.c32.Outer.Inner"), "Innermost": (Outer.Inner.Innermost, "mc.checks.c32.Outer.Inner.Innermost"), "Sub": (Sub, "mc.checks.c32.Sub"),
    "OrderedDict": (collections.OrderedDict, "collections.OrderedDict"), "Mapping": (collections.abc.Mapping, "collections.abc.Mapping"),
}


def gen_qualified(tier):
    for x in TYPES:
        yield ("type", x)
    for x in ("local", "module", "package", "nested module", "made", "instance"):
        yield (x, "")


def run_qualified(case, t):
    import json
    import json.decoder
    import os.path
    import types

    import mc.checks.c32
    from vistautils.class_utils import fully_qualified_name, fully_qualified_name_of_type

    kind, x = case
    t.state(case)
    if kind == "type":
        c, want = TYPES[x]
        t.eq(fully_qualified_name(c), want, f"name of {c}")
        if x not in ("Mapping", "object"):
            try:
                o = c() if x != "NoneType" else None
            except TypeError:
                return
            t.eq(fully_qualified_name_of_type(o), want, f"name of the type of {o!r}")
    elif kind == "local":
        class Local:
            class Nested:
                pass

        t.eq(fully_qualified_name(Local), __name__ + ".run_qualified.<locals>.Local", "name of a local class")
        t.eq(fully_qualified_name(Local.Nested), __name__ + ".run_qualified.<locals>.Local.Nested", "name of a nested local class")
        t.eq(fully_qualified_name_of_type(Local()), __name__ + ".run_qualified.<locals>.Local", "name of the type of an instance of a local class")
    elif kind == "module":
        t.eq(fully_qualified_name(json), "json", "name of a module")
        t.eq(fully_qualified_name(mc), "mc", "name of a package")
    elif kind == "package":
        t.eq(fully_qualified_name(json.decoder), "json.decoder", "name of a module in a package")
    elif kind == "nested module":
        t.eq(fully_qualified_name(mc.checks.c32), "mc.checks.c32", "name of a module two packages down")
    elif kind == "made":
        m = types.ModuleType("made.up")
        t.eq(fully_qualified_name(m), "made.up", "name of a module")
        c = type("Made", (), {"__module__": None})
        t.eq(fully_qualified_name(c), "Made", "name of a class without a module")
        c = type("Made", (), {"__module__": "made.up", "__qualname__": "A.Made"})
        t.eq(fully_qualified_name(c), "made.up.A.Made", "name of a class with a module")
        for module in ("__main__", "type", "builtin", "__builtin__", "builtins.x", "a"):
            c = type("Made", (), {"__module__": module, "__qualname__": "A.Made"})
            t.eq(fully_qualified_name(c), module + ".A.Made", f"name of a class in the module {module!r}")
            t.eq(fully_qualified_name_of_type(c()), module + ".A.Made", f"name of the type of an instance of a class in the module {module!r}")
    else:
        t.eq(fully_qualified_name_of_type(json), "module", "name of the type of a module") if False else None
        t.eq(fully_qualified_name_of_type(5), "int", "name of the type of 5")
        t.eq(fully_qualified_name_of_type([]), "list", "name of the type of a list")


# --- evaluation -------------------------------------------------------------------
EXPRESSIONS = {
    "1 + 1": 2, "x": "X", "x + y": "XY", "f(3)": 6, "[x for _ in range(2)]": ["X", "X"], "None": None, "''": "", "json.dumps(1)": "1", "os.path.join('a', 'b')": "a/b", "mc.plug.NUMBER": 42,
    "xml.dom.pulldom.START_ELEMENT": "START_ELEMENT", "nowhere": NameError, "1/0": ZeroDivisionError, "1 +": SyntaxError, "json.nothing": AttributeError, "(lambda: x)()": "X", "max(1, 2)": 2,
}
NEEDS = {"x": ("x",), "x + y": ("x", "y"), "f(3)": ("f",), "[x for _ in range(2)]": ("x",), "(lambda: x)()": ("x",), "json.dumps(1)": ("json",), "json.nothing": ("json",), "os.path.join('a', 'b')": ("os",), "mc.plug.NUMBER": ("mc.plug",), "xml.dom.pulldom.START_ELEMENT": ("xml.dom.pulldom",)}
MODULES = ((), ("json",), ("os",), ("os.path",), ("mc.plug",), ("xml.dom.pulldom",), ("json", "os.path", "mc.plug"), ("json", "json"), ("no_such_module",), ("json.nothing",))
CONTEXTS = {"empty": {}, "x": {"x": "X"}, "full": {"x": "X", "y": "Y", "f": lambda n: 2 * n}}


def gen_eval(tier):
    for e in EXPRESSIONS:
        for m in MODULES:
            for c in CONTEXTS:
                yield (e, m, c)


def run_eval(case, t):
    import types

    from vistautils.misc_utils import eval_in_context_of_modules

    e, modules, c = case
    t.state(case)
    result = EXPRESSIONS[e]
    known = set(CONTEXTS[c]) | {m for m in modules}
    for m in modules:
        parts = m.split(".")
        known |= {".".join(parts[: i + 1]) for i in range(len(parts))}
    missing = [n for n in NEEDS.get(e, ()) if n not in known]
    bad_module = any(m in ("no_such_module", "json.nothing") for m in modules)
    for form in (dict, lambda d: types.MappingProxyType(dict(d)), collections.OrderedDict):
        for expected in (object, str, int, list, type(None)):
            context = form(CONTEXTS[c])
            before = dict(context)
            w = f"evaluating {e!r} with {modules} in {c} as {expected.__name__}"
            go = lambda: eval_in_context_of_modules(e, context, context_modules=list(modules), expected_type=expected)  # noqa
            if bad_module:
                t.raises(ImportError, go, w)
            elif missing:
                t.raises((NameError, AttributeError), go, w)
            elif isinstance(result, type):
                t.raises(result, go, w)
            elif isinstance(result, expected):
                t.same(t.call(go, w), result, w)
            else:
                t.raises(TypeError, go, w)
            t.true(dict(context) == before and list(context) == list(before), f"the context after {w}: {sorted(context)}")


# --- wrappers ---------------------------------------------------------------------
def gen_wrappers(tier):
    for v in VALUES:
        for i in VALUES:
            yield (v, i)


def run_wrappers(case, t):
    from vistautils.misc_utils import Scored, WithId

    item, other = VALUES[case[0]], VALUES[case[1]]
    t.state(case)
    w = f"({case[1]}, {case[0]})"
    for make in (lambda: WithId(other, item), lambda: WithId(id=other, item=item)):
        if isinstance(other, str) and other and item is not None:
            x = t.call(make, "WithId" + w)
            t.true(x.id == other and x.item is item, f"WithId{w} holds {x!r}")
        else:
            t.raises((ValueError, TypeError), make, "WithId" + w)
    for make in (lambda: Scored(item, other), lambda: Scored(item=item, score=other)):
        if isinstance(other, float) and item is not None:
            x = t.call(make, "Scored" + w)
            t.true(x.item is item and x.score == other, f"Scored{w} holds {x!r}")
        else:
            t.raises((ValueError, TypeError), make, "Scored" + w)


# --- attributes -------------------------------------------------------------------
def gen_attributes(tier):
    for v in VALUES:
        for c in ("int", "str", "list", "Outer", "Falsy", "(int, str)", "object"):
            yield (v, c)


def run_attributes(case, t):
    import warnings

    from attr import attrs

    warnings.simplefilter("ignore")
    from vistautils.attrutils import attrib_factory, attrib_instance_of, attrib_opt_instance_of, opt_instance_of
    from attr import attrib

    x, c = VALUES[case[0]], CLASSES[case[1]]
    t.state(case)

    @attrs
    class Has:
        v = attrib_instance_of(c)

    @attrs
    class Opt:
        v = attrib_opt_instance_of(c)

    @attrs
    class Made:
        v = attrib_factory(list)

    w = f"an attribute of type {case[1]} given {case[0]}"
    if isinstance(x, c):
        t.is_(t.call(lambda: Has(x), w).v, x, w)
    else:
        t.raises(TypeError, lambda: Has(x), w)
    t.raises(TypeError, lambda: Has(), "an attribute which is missing")
    if isinstance(x, c) or x is None:
        t.is_(t.call(lambda: Opt(x), w).v, x, "optional: " + w)
    else:
        t.raises(TypeError, lambda: Opt(x), "optional: " + w)
    t.is_(Opt().v, None, "an optional attribute which is missing")
    t.true(Made().v == [] and Made().v is not Made().v, "an attribute made by a factory")
    t.is_(Made(x).v, x, "an attribute with a factory which is given")
    if not isinstance(c, tuple):
        @attrs
        class Valid:
            v = attrib(validator=opt_instance_of(c))

        if isinstance(x, c) or x is None:
            t.is_(t.call(lambda: Valid(x), w).v, x, "optional: " + w)
        else:
            t.raises(TypeError, lambda: Valid(x), "optional: " + w)


SPACES = [
    Space("values", gen_values, run_values, "%d values x 4 messages x all helpers that look at a value" % len(VALUES)),
    Space("instances", gen_instances, run_instances, "%d values x %d classes" % (len(VALUES), len(CLASSES))),
    Space("in", gen_in, run_in, "all sequences of up to 2 (thorough 3) of 10 legal values x 12 items"),
    Space("limited", gen_limited, run_limited, "all sizes to 13 (thorough 29) x limits from -2 on, 4 contents, 5 kinds of input"),
    Space("names", gen_names, run_names, "all names of up to 6 (thorough 7) characters over 4"),
    Space("flatten", gen_flatten, run_flatten, "all sequences of up to 3 (thorough 4) of 5 iterables"),
    Space("qualified names", gen_qualified, run_qualified, "12 classes, local ones, modules"),
    Space("evaluation", gen_eval, run_eval, "17 expressions x 10 lists of modules x 3 contexts in 3 forms x 5 expected types"),
    Space("wrappers", gen_wrappers, run_wrappers, "all pairs of %d values" % len(VALUES)),
    Space("attributes", gen_attributes, run_attributes, "%d values x 7 classes" % len(VALUES)),
]
SPACES += many.BY_CHECK["C32"]
