"""C34 attribute helpers validate, convert and default each instance on its own."""
import itertools
import warnings

from mc.core import Space, thorough, seqs


class Base:
    pass


class Derived(Base):
    pass


BASE, DERIVED = Base(), Derived()

TYPES = {
    "int": int, "str": str, "float": float, "bool": bool, "list": list, "NoneType": type(None), "object": object,
    "Base": Base, "Derived": Derived, "int|str": (int, str), "list|dict": (list, dict), "Base|float": (Base, float),
}
VALUES = {
    "None": None, "0": 0, "5": 5, "True": True, "False": False, "''": "", "'a'": "a", "0.0": 0.0, "1.5": 1.5, "[]": [], "[1]": [1],
    "{}": {}, "b''": b"", "base": BASE, "derived": DERIVED, "Base": Base, "int": int, "()": (),
}
ABSENT = "(absent)"


def build(fn, frozen, *a, **k):
    """A class with a single attribute x made by fn."""
    import attr

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return attr.s(frozen=frozen)(type("A", (), {"x": fn(*a, **k)}))


def gen_instances(tier):
    for helper in ("instance", "opt", "validator"):
        for ty in TYPES:
            for default in (ABSENT,) + tuple(VALUES):
                for frozen in (False, True):
                    yield (helper, ty, default, frozen)


def run_instances(case, t):
    from vistautils import attrutils
    from attr import attrib

    helper, ty, default, frozen = case
    t.state(case)
    typ = TYPES[ty]
    kw = {} if default == ABSENT else {"default": VALUES[default]}
    optional = helper != "instance"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if helper == "instance":
            cls = t.call(lambda: build(attrutils.attrib_instance_of, frozen, typ, **kw), repr(case))
        elif helper == "opt":
            cls = t.call(lambda: build(attrutils.attrib_opt_instance_of, frozen, typ, **kw), repr(case))
        else:
            cls = t.call(lambda: build(attrib, frozen, validator=attrutils.opt_instance_of(typ), **kw), repr(case))

    def expect(make, v, what):
        if isinstance(v, typ) or (optional and v is None):
            t.is_(t.call(make, what).x, v, what)
            t.outcome("accepted")
        else:
            t.raises(TypeError, make, what)

    for n, v in VALUES.items():
        expect(lambda: cls(v), v, f"{case} given {n}")
        expect(lambda: cls(x=v), v, f"{case} given x={n}")
    if kw:
        expect(lambda: cls(), kw["default"], f"{case} without a value")
    elif helper == "opt":
        expect(lambda: cls(), None, f"{case} without a value")
    else:
        t.raises(TypeError, lambda: cls(), f"{case} without a value")


IMMUTABLES = ("ImmutableSet", "ImmutableDict", "ImmutableSetMultiDict", "ImmutableListMultiDict")
PAIRS = ((0, ""), ("", 0), (0, 1), ("", None))
ELEMENTS = {"ImmutableSet": (0, "", None, "a"), "ImmutableDict": PAIRS, "ImmutableSetMultiDict": PAIRS, "ImmutableListMultiDict": PAIRS}


def content(kind, c):
    """Plain picture of an immutable collection."""
    if kind == "ImmutableSet":
        return ("set", list(c))
    if kind == "ImmutableDict":
        return ("dict", list(c.items()))
    return ("multi", {k: (sorted(map(repr, c[k])) if "Set" in kind else list(c[k])) for k in c.keys()})


def wanted(kind, items):
    if kind == "ImmutableSet":
        return ("set", list(dict.fromkeys(items)))
    if kind == "ImmutableDict":
        return ("dict", list(dict(items).items()))
    d = {}
    for k, v in items:
        d.setdefault(k, []).append(v)
    if "Set" in kind:
        return ("multi", {k: sorted({repr(v) for v in vs}) for k, vs in d.items()})
    return ("multi", d)


def gen_immutable(tier):
    for helper in ("immutable", "opt"):
        for kind in IMMUTABLES:
            for items in seqs(ELEMENTS[kind], 0, 4 if thorough(tier) else 3):
                if kind == "ImmutableDict" and len({k for k, _ in items}) < len(items):
                    continue  # repeated keys are up to the collection
                for form in ("list", "same"):
                    for frozen in (False, True):
                        yield (helper, kind, items, form, frozen)


def run_immutable(case, t):
    import immutablecollections
    from vistautils import attrutils

    helper, kind, items, form, frozen = case
    t.state(case)
    typ = getattr(immutablecollections, kind)
    fn = attrutils.attrib_immutable if helper == "immutable" else attrutils.attrib_opt_immutable
    cls = t.call(lambda: build(fn, frozen, typ), repr(case))
    given = [tuple(i) if isinstance(i, tuple) else i for i in items]
    arg = typ.of(list(given)) if form == "same" else given
    for round_ in range(2):
        for make in (lambda: cls(arg), lambda: cls(x=arg)):
            a = t.call(make, repr(case))
            t.true(isinstance(a.x, typ), f"{case} is a {kind}")
            t.eq(content(kind, a.x), wanted(kind, items), repr(case))
            if form == "list":
                given.append("later")
                t.eq(content(kind, a.x), wanted(kind, items), f"{case} after the list changed")
                given.pop()
        if helper == "opt":
            for make in (lambda: cls(), lambda: cls(None), lambda: cls(x=None)):
                b = t.call(make, f"{case} without a value")
                t.true(isinstance(b.x, typ), f"{case} without a value is a {kind}")
                t.eq(len(b.x), 0, f"{case} without a value is empty")
        else:
            t.raises(TypeError, lambda: cls(), f"{case} without a value")
            t.raises(TypeError, lambda: cls(None), f"{case} given None")
        for v in (0, 5, False, 0.0, BASE):
            t.raises(Exception, lambda: cls(v), f"{case} given {v!r}")


def gen_factories(tier):
    for what in ("list", "dict", "set", "counter", "builder ImmutableSet", "builder ImmutableDict", "builder ImmutableListMultiDict", "builder ImmutableSetMultiDict"):
        for n in range(1, 6 if thorough(tier) else 4):
            for order in itertools.product(range(n), repeat=n):
                yield (what, n, order)


def run_factories(case, t):
    """n instances, then elements added to them in a given order: each has only its own."""
    import immutablecollections
    from vistautils import attrutils

    what, n, order = case
    t.state(case)
    if what.startswith("builder"):
        kind = what.split()[1]
        typ = getattr(immutablecollections, kind)
        cls = t.call(lambda: build(attrutils.attrib_private_immutable_builder, False, typ), repr(case))
        t.raises(TypeError, lambda: cls([]), f"{case} given as an argument")
        t.raises(TypeError, lambda: cls(x=[]), f"{case} given by name")
    else:
        made = []

        def counter():
            made.append([])
            return made[-1]

        cls = t.call(lambda: build(attrutils.attrib_factory, False, {"list": list, "dict": dict, "set": set, "counter": counter}[what]), repr(case))
        if what == "counter":
            t.eq(len(made), 0, f"{case}: nothing is made before an instance is")
        own = object()
        t.is_(cls(own).x, own, f"{case}: a given value is kept")
        t.is_(cls(None).x, None, f"{case}: a given None is kept")
        if what == "counter":
            t.eq(len(made), 0, f"{case}: the factory is not called for given values")
    instances = [t.call(lambda: cls(), repr(case)) for _ in range(n)]
    expected = [[] for _ in range(n)]
    for i, target in enumerate(order):
        x = instances[target].x
        expected[target].append(i)
        if what.startswith("builder"):
            if kind == "ImmutableSet":
                x.add(i)
            else:
                x.put(i, -i)
        elif what in ("list", "counter"):
            x.append(i)
        elif what == "set":
            x.add(i)
        else:
            x[i] = -i
    for inst, e in zip(instances, expected):
        x = inst.x
        if what.startswith("builder"):
            x = x.build()
            x = x.keys() if kind != "ImmutableSet" else x
        t.eq(sorted(x), e, f"{case}: content of an instance")
    if what == "counter":
        t.eq(len(made), n, f"{case}: the factory is called once for each instance")


def gen_refused(tier):
    for helper in ("attrib_immutable", "attrib_opt_immutable", "attrib_private_immutable_builder"):
        for ty in ("list", "dict", "set", "frozenset", "tuple", "int", "str", "object") + IMMUTABLES:
            yield (helper, ty)


def run_refused(case, t):
    import builtins
    import immutablecollections
    from vistautils import attrutils

    helper, ty = case
    t.state(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ty in IMMUTABLES:
            t.call(lambda: getattr(attrutils, helper)(getattr(immutablecollections, ty)), repr(case))
        else:
            t.raises(ValueError, lambda: getattr(attrutils, helper)(getattr(builtins, ty)), repr(case))


SIZED = ((), [], "", b"", {}, frozenset(), range(0), (0,), [None], [[]], "a", " ", "\n", b"\0", {0: None}, {"": ""}, frozenset([0]), frozenset([""]), range(3), [1, 2, 3])


def gen_nonempty(tier):
    for i in range(len(SIZED)):
        for frozen in (False, True):
            for how in ("alone", "in a list", "optional", "default"):
                yield (i, frozen, how)


def run_nonempty(case, t):
    from attr import attrib, validators
    from vistautils.attrutils import non_empty

    i, frozen, how = case
    t.state(case)
    v = SIZED[i]
    validator = {"in a list": [validators.instance_of(type(v)), non_empty], "optional": validators.optional(non_empty)}.get(how, non_empty)
    kw = {"default": v} if how == "default" else {}
    cls = t.call(lambda: build(attrib, frozen, validator=validator, **kw), repr(case))
    for make in (lambda: cls(v), lambda: cls(x=v)) + ((cls,) if kw else ()):
        if len(v):
            t.is_(t.call(make, f"an attribute which must not be empty given {v!r}").x, v, f"an attribute which must not be empty given {v!r}")
        else:
            t.raises(Exception, make, f"an attribute which must not be empty given {v!r}")
    for x in (0, 5, True, 1.5, BASE, None):
        if not (x is None and how == "optional"):
            t.raises(Exception, lambda: cls(x), f"an attribute which must not be empty given {x!r}, which has no length")
    if how == "optional":
        t.is_(t.call(lambda: cls(None), "None for an optional non-empty attribute").x, None, "None for an optional non-empty attribute")
    t.outcome("empty" if not len(v) else "not empty")


SPACES = [
    Space("refused types", gen_refused, run_refused, "3 helpers x 12 types"),
    Space("instances", gen_instances, run_instances, "3 helpers x 12 types x 19 defaults x frozen or not, each given 18 values in two ways"),
    Space("immutable collections", gen_immutable, run_immutable, lambda tier: "2 helpers x 4 collections x all sequences of up to %d elements" % (4 if thorough(tier) else 3)),
    Space("not empty", gen_nonempty, run_nonempty, "20 empty and non-empty values x 4 ways of using the validator x frozen or not"),
    Space("factories", gen_factories, run_factories, lambda tier: "8 factories x up to %d instances x every assignment of additions to instances" % (5 if thorough(tier) else 3)),
]
