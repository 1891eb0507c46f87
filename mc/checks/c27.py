"""C27 typed accessors return a value of the promised type or fail."""
import enum
import itertools
import logging

from mc.core import Space, thorough

ABSENT = ("absent",)
VALUES = ("a", "", "b c", "0", "RED", "ZERO", "Crimson", "red", "True", 0, 1, 2, 3, 5, -1, 10 ** 30, True, False, 0.0, 1.0, 1.5, -2.5, 1e300, "inf!", "nan!", [], [0], ["a", [1]], {}, {"p": 1}, {"x": "a"})
SHAPES = ("top", "nested", "namespace")
MISSING = ("top", "nested", "namespace", "namespace missing", "through a leaf", "elsewhere")


class Color(enum.Enum):
    RED = "r"
    GREEN = 0
    Crimson = "r"


class Number(enum.IntEnum):
    ZERO = 0
    RED = 1


class Word(str, enum.Enum):
    EMPTY = ""
    RED = "red"


class Nothing(enum.Enum):
    pass


class Truthless(enum.Enum):
    RED = 1
    ZERO = 2

    def __bool__(self):
        return self is not Truthless.ZERO


ENUMS = {"Color": Color, "Number": Number, "Word": Word, "Nothing": Nothing, "Truthless": Truthless}


def make(value, shape):
    """The parameters to ask and the name to ask for."""
    from vistautils.parameters import Parameters

    import math

    if value == "inf!":
        value = math.inf
    if value == "nan!":
        value = math.nan
    decoy = {"other": 1, "P": "decoy", "p2": 2}
    if value is not ABSENT:
        if shape == "top":
            return Parameters.from_mapping({**decoy, "p": value}), "p", value
        d = {"n": {"m": {"p": value, **decoy}, "p": "decoy"}, "p": "decoy", "m": {"p": 77}}
        p = Parameters.from_mapping(d)
        return (p, "n.m.p", value) if shape == "nested" else (p.namespace("n.m"), "p", value)
    d = {"n": {"m": dict(decoy), "p": "decoy"}, "p": "decoy", "leaf": 5}
    p = Parameters.from_mapping(d)
    if shape == "top":
        return Parameters.from_mapping(decoy), "p", ABSENT
    if shape == "nested":
        return p, "n.m.p", ABSENT
    if shape == "namespace":
        return p.namespace("n.m"), "p", ABSENT
    if shape == "namespace missing":
        return p, "n.k.p", ABSENT
    if shape == "elsewhere":
        return Parameters.from_mapping({"n": {"p": "decoy"}}), "p", ABSENT
    return p, "leaf.p", ABSENT


def given(gen):
    for v in VALUES:
        for s in SHAPES:
            for x in gen:
                yield (v, s) + (x,)
    for s in MISSING:
        for x in gen:
            yield (ABSENT, s) + (x,)


def same_value(got, want):
    from collections.abc import Mapping

    from vistautils.parameters import Parameters
    from mc.trees import nested, same

    if isinstance(got, Parameters):
        return isinstance(want, Mapping) and same(nested(got), want)
    return same(got, want)


def check(t, fn, kind, want, w):
    """kind: 'value' (want is the value), 'none', 'error'."""
    from vistautils.parameters import ParameterError

    if kind == "error":
        t.raises(ParameterError, fn, w)
    elif kind == "none":
        t.is_(t.call(fn, w), None, w)
    else:
        got = t.call(fn, w)
        t.true(same_value(got, want), f"{w}: {got!r}, not {want!r}")
    t.outcome(kind)


def both(t, p, name, value, method, typ, ok, args=(), kw=(), defaults=(), bad=(), w=""):
    """The plain and the optional form of an accessor, without and with each default.
    The bad defaults are of the right type, but the constraint excludes them."""
    kw = dict(kw)
    for d in bad:
        k = {**kw, "default": d}
        ww = f"{method}({name!r}{''.join(', ' + repr(a) for a in args)}{''.join(f', {x}={y!r}' for x, y in k.items())}) given {value!r}"
        check(t, lambda: getattr(p, method)(name, *args, **k), "value" if value is not ABSENT and ok else "error", value, ww)
        if value is not ABSENT and not ok or method == "floating_point" and value is ABSENT:
            if not (method == "integer" and "valid_range" in k):
                check(t, lambda: getattr(p, "optional_" + method)(name, *args, **k), "error", None, "optional_" + ww)
    for optional in (False, True):
        m = ("optional_" if optional else "") + method
        if not hasattr(p, m):
            continue
        f = getattr(p, m)
        for d in ((),) + tuple((x,) for x in defaults):
            k = {**kw, **({"default": d[0]} if d else {})}
            ww = f"{m}({name!r}{''.join(', ' + repr(a) for a in args)}{''.join(f', {x}={y!r}' for x, y in k.items())}) given {value!r}"
            if optional and "valid_range" in k and method == "integer":
                continue
            if value is ABSENT:
                if d:
                    check(t, lambda: f(name, *args, **k), "value", d[0], ww)
                else:
                    check(t, lambda: f(name, *args, **k), "none" if optional else "error", None, ww)
            else:
                check(t, lambda: f(name, *args, **k), "value" if ok else "error", value, ww)


def is_int(v):
    return type(v) is int


# --- strings -------------------------------------------------------------------
OPTIONS = (None, (), ("a",), ("a", "b c"), ("",), ("b", "0", "a", "RED", ""), ("A", "a "))
FORMS = ("tuple", "list", "set", "dict", "iterator")


def gen_strings(tier):
    yield from given([(o, f) for o in OPTIONS for f in (FORMS if o is not None else FORMS[:1])])


def run_strings(case, t):
    value, shape, (options, form) = case
    quiet()
    t.state(repr(case))
    p, name, value = make(value, shape)
    ok = isinstance(value, str) and (options is None or value in options)
    if options is None:
        both(t, p, name, value, "string", str, ok, defaults=("", "d", "a"))
        return
    if form == "iterator":
        for m in ("string", "optional_string"):
            w = f"{m}({name!r}, an iterator over {options!r}) given {value!r}"
            f = getattr(p, m)
            if value is ABSENT:
                check(t, lambda: f(name, iter(options)), "none" if m[0] == "o" else "error", None, w)
            else:
                check(t, lambda: f(name, iter(options)), "value" if ok else "error", value, w)
        return
    o = {"tuple": tuple, "list": list, "set": set, "dict": dict.fromkeys}[form](options)
    defaults = tuple(options)
    bad = tuple(x for x in ("", "a", "b c", "zz") if x not in options)
    both(t, p, name, value, "string", str, ok, args=(o,), defaults=defaults, bad=bad)
    both(t, p, name, value, "string", str, ok, kw={"valid_options": o}, defaults=defaults, bad=bad)


# --- numbers -------------------------------------------------------------------
def ranges(lo, hi):
    from vistautils.range import Range

    return {
        "all": (Range.all(), lambda x: True), "closed": (Range.closed(lo, hi), lambda x: lo <= x <= hi), "open": (Range.open(lo, hi), lambda x: lo < x < hi),
        "open-closed": (Range.open_closed(lo, hi), lambda x: lo < x <= hi), "closed-open": (Range.closed_open(lo, hi), lambda x: lo <= x < hi),
        "at least": (Range.at_least(lo), lambda x: x >= lo), "at most": (Range.at_most(lo), lambda x: x <= lo), "greater": (Range.greater_than(lo), lambda x: x > lo), "less": (Range.less_than(lo), lambda x: x < lo),
        "point": (Range.closed(lo, lo), lambda x: x == lo), "empty": (Range.open_closed(lo, lo), lambda x: False),
    }


KINDS = ("none", "all", "closed", "open", "open-closed", "closed-open", "at least", "at most", "greater", "less", "point", "empty")


def gen_numbers(tier):
    yield from given([(k, lo) for k in KINDS for lo in (0, 1) if k not in ("none", "all") or lo == 0])


def run_numbers(case, t):
    value, shape, (kind, lo) = case
    quiet()
    t.state(repr(case))
    p, name, value = make(value, shape)
    # integers
    if kind == "none":
        if type(value) is not bool:
            both(t, p, name, value, "integer", int, is_int(value), defaults=(0, 5, -1))
            both(t, p, name, value, "positive_integer", int, is_int(value) and value > 0, defaults=(1, 5))
            if value is ABSENT:
                for d in (0, -3):
                    try:
                        got = p.optional_positive_integer(name, default=d)
                    except Exception:
                        got = "an error"
                    t.true(got is not None, f"optional_positive_integer with default {d} is silently None")
        both(t, p, name, value, "floating_point", float, isinstance(value, float), defaults=(0.0, -0.5, 2.5))
        both(t, p, name, value, "boolean", bool, isinstance(value, bool), defaults=(True, False))
        for d in (True, False):
            w = f"optional_boolean_with_default({d}) given {value!r}"
            if value is ABSENT:
                check(t, lambda: p.optional_boolean_with_default(name, d), "value", d, w)
            else:
                check(t, lambda: p.optional_boolean_with_default(name, d), "value" if isinstance(value, bool) else "error", value, w)
        w = f"optional_float given {value!r}"
        check(t, lambda: p.optional_float(name), "none" if value is ABSENT else "value" if isinstance(value, float) else "error", value, w)
        return
    r, inside = ranges(lo, lo + 2)[kind]
    if type(value) is not bool:
        both(t, p, name, value, "integer", int, is_int(value) and inside(value), kw={"valid_range": r}, defaults=tuple(d for d in (0, 1, 2, 3, -1) if inside(d)), bad=tuple(d for d in (0, 1, 2, 3, -1) if not inside(d)))
    r, inside = ranges(float(lo), lo + 1.5)[kind]
    if kind == "all" and value != value:
        return  # whether no bounds at all admit what is not a number is not settled
    ok = isinstance(value, float) and inside(value)
    defaults = tuple(d for d in (0.0, 1.0, 2.5, -1.0) if inside(d))
    bad = tuple(d for d in (0.0, 1.0, 2.5, -1.0) if not inside(d))
    both(t, p, name, value, "floating_point", float, ok, args=(r,), defaults=defaults, bad=bad)
    both(t, p, name, value, "floating_point", float, ok, kw={"valid_range": r}, defaults=defaults, bad=bad)
    check(t, lambda: p.optional_float(name, r), "none" if value is ABSENT else "value" if ok else "error", value, f"optional_float in {r} given {value!r}")


# --- enumerations, lists, namespaces, get -----------------------------------------
def gen_others(tier):
    yield from given([("enum", e) for e in ENUMS] + [("list", ""), ("namespace", "")] + [("get", x) for x in TYPES])


TYPES = ("object", "str", "int", "float", "bool", "list", "Parameters", "dict", "Mapping", "Sequence", "Path")


def run_others(case, t):
    value, shape, (what, which) = case
    quiet()
    t.state(repr(case))
    p, name, value = make(value, shape)
    if what == "enum":
        cls = ENUMS[which]
        members = cls.__members__
        for d in ((),) + tuple((m,) for m in members.values()):
            k = {"default": d[0]} if d else {}
            w = f"enum({name!r}, {cls!r}, {k}) given {value!r}"
            if value is ABSENT:
                if d:
                    t.is_(t.call(lambda: p.enum(name, cls, **k), w), d[0], w)
                else:
                    check(t, lambda: p.enum(name, cls, **k), "error", None, w)
            elif isinstance(value, str) and value in members:
                t.is_(t.call(lambda: p.enum(name, cls, **k), w), members[value], w)
            else:
                check(t, lambda: p.enum(name, cls, **k), "error", None, w)
    elif what == "list":
        both(t, p, name, value, "arbitrary_list", list, isinstance(value, list), defaults=([], [1], [[]]))
    elif what == "namespace":
        both(t, p, name, value, "namespace", None, isinstance(value, dict)) if value is ABSENT or isinstance(value, dict) else \
            check(t, lambda: p.namespace(name), "error", None, f"namespace given {value!r}")
        if not isinstance(value, dict) and value is not ABSENT:
            check(t, lambda: p.optional_namespace(name), "none", None, f"optional_namespace given {value!r}")
    else:
        import collections.abc
        from pathlib import Path
        from vistautils.parameters import Parameters

        typ = {"object": object, "str": str, "int": int, "float": float, "bool": bool, "list": list, "Parameters": Parameters, "dict": dict, "Mapping": collections.abc.Mapping, "Sequence": collections.abc.Sequence, "Path": Path}[which]
        if which == "int" and type(value) is bool:
            return
        if value is ABSENT:
            right = {"object": ("x", 0), "str": ("", "x"), "int": (0, 7), "float": (0.0, 1.5), "bool": (False, True), "list": ([], [1]), "dict": ({}, {"a": 1}), "Mapping": ({},), "Sequence": ((), ""), "Path": (Path("x"),), "Parameters": (Parameters.empty(),)}[which]
            check(t, lambda: p.get(name, typ), "error", None, f"get({which}) of nothing")
            check(t, lambda: p.get_optional(name, typ), "none", None, f"get_optional({which}) of nothing")
            for d in right:
                t.is_(t.call(lambda: p.get(name, typ, d), "get"), d, f"get({which}) of nothing with default {d!r}")
                t.is_(t.call(lambda: p.get(name, typ, default=d), "get"), d, f"get({which}) of nothing with default {d!r}")
                t.is_(t.call(lambda: p.get_optional(name, typ, default=d), "get"), d, f"get_optional({which}) of nothing with default {d!r}")
            return
        ok = which == "Parameters" if isinstance(value, dict) else isinstance(value, typ)
        ok = ok or which == "object"
        for label, f in (("get", p.get), ("get_optional", p.get_optional)):
            check(t, lambda: f(name, typ), "value" if ok else "error", value, f"{label}({which}) of {value!r}")
            for d in ("default", 0, None):
                check(t, lambda: f(name, typ, default=d), "value" if ok else "error", value, f"{label}({which}, default={d!r}) of {value!r}")


# --- exactly one ------------------------------------------------------------------
NAMES = ("a", "b", "n", "n.a", "n.b", "z", "a.b", "n.z", "n.a.z")


def gen_one(tier):
    for values in itertools.product((ABSENT, "v", 0, "", False, []), repeat=2):
        for ns in (ABSENT, {}, {"a": 0}, {"b": []}):
            for k in range(0, 4 if not thorough(tier) else 5):
                for names in itertools.combinations(NAMES, k):
                    yield (values, ns, names)


def run_one(case, t):
    from vistautils.parameters import ParameterError, Parameters

    values, ns, names = case
    t.state(repr((values, ns)))
    d = {k: v for k, v in (("a", values[0]), ("b", values[1]), ("n", ns)) if v is not ABSENT}
    p = Parameters.from_mapping(d)
    present = {k for k in d} | ({"n." + k for k in ns} if ns is not ABSENT else set())
    count = sum(1 for n in names if n in present)
    for label, form in (("list", list), ("tuple", tuple), ("set", set), ("iterator", iter)):
        w = f"assert_exactly_one_present of the {label} {names} given {d!r}"
        if count == 1:
            t.is_(t.call(lambda: p.assert_exactly_one_present(form(names)), w), None, w)
        else:
            t.raises(ParameterError, lambda: p.assert_exactly_one_present(form(names)), w)
    t.outcome(f"{count} present")


def quiet():
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


SPACES = [
    Space("strings", gen_strings, run_strings, "%d values and absence at every place x %d sets of options in 5 forms x defaults inside and outside the options, plain and optional" % (len(VALUES), len(OPTIONS))),
    Space("numbers", gen_numbers, run_numbers, "%d values and absence at every place x 12 kinds of range x defaults inside and outside the range for integers, positive integers, floats and booleans" % len(VALUES)),
    Space("others", gen_others, run_others, "%d values and absence at every place x 5 enumerations, lists, namespaces and 11 types" % len(VALUES)),
    Space("exactly one", gen_one, run_one, "all parameters over 3 names x all sets of up to %s of 9 names" % "3 (thorough 4)"),
]
