"""C22 evaluating parameters and building objects from them."""
import itertools

from mc.core import Space, thorough

ERROR = ("error",)

# value expressions: label -> (expression, result or ERROR, needs)
VALUES = {
    "literal": ("41 + 1", 42, ()),
    "falsy literal": ("0", 0, ()),
    "decimal literal": ("1.5", 1.5, ()),
    "text": ("'a.b'", "a.b", ()),
    "context": ("here", "CONTEXT", ("context",)),
    "context attribute": ("plug.NUMBER", 42, ("context",)),
    "qualified": ("mc.plug.NUMBER", 42, ("import",)),
    "qualified falsy": ("mc.plug.ZERO", 0, ("import",)),
    "qualified call": ("mc.plug.Thing()", "THING", ("import",)),
    "special": ("special", "SPECIAL", ()),
    "special falsy": ("special falsy", 0, ()),
    "special import": ("special import", 42, ("import", "namespace")),
    "special value and factory": ("special both", 42, ()),
    "special with dots": ("special.dotted", 42, ()),
    "special like a qualified name": ("no_such_package.special", 42, ()),
    "almost special": ("special falsy ", ERROR, ()),
    "almost special, in case": ("Special falsy", ERROR, ()),
    "undefined": ("no_such_name", ERROR, ()),
    "no such package": ("no_such_package.x", ERROR, ()),
    "no such attribute": ("mc.plug.nothing", ERROR, ("import",)),
    "failing": ("1/0", ERROR, ()),
    "not python": ("1 +", ERROR, ()),
    "empty": ("", ERROR, ()),
    "wrong type": ("[]", "LIST", ()),
}
# factories: label -> (expression, kind, needs)
FACTORIES = {
    "class with from_parameters": ("plug.Built", "class", ("context",)),
    "its subclass": ("plug.SubBuilt", "class", ("context",)),
    "plain class": ("plug.Thing", "thing", ("context",)),
    "function": ("plug.build", "function", ("context",)),
    "lambda": ("lambda p: plug.build(p)", "function", ("context",)),
    "class with a class method": ("plug.ClassBuilt", "function", ("context",)),
    "object which can be called": ("plug.BUILDER", "function", ("context",)),
    "method": ("plug.BUILDER.method", "function", ("context",)),
    "partial": ("plug.PARTIAL", "function", ("context",)),
    "function with an attribute from_parameters": ("plug.marked", "function", ("context",)),
    "imported class": ("mc.plug.Built", "class", ("import",)),
    "imported function": ("mc.plug.build", "function", ("import",)),
    "special": ("special factory", "special", ()),
    "special object": ("special object", "special", ()),
    "special import": ("special import", "function", ("import", "namespace")),
    "not callable": ("42", ERROR, ()),
    "undefined": ("no_such_name", ERROR, ()),
    "failing": ("1/0", ERROR, ()),
    "raising": ("lambda p: p.string('absent')", ERROR, ()),
    "wrong type": ("lambda p: []", "LIST", ()),
    "none": ("lambda p: None", None, ()),
}
DEFAULT_VALUES = ("none", "right", "falsy", "wrong type")
DEFAULT_FACTORIES = ("none", "function", "class", "plain class", "not callable")


class Marker:
    pass


SPECIAL, CONTEXT = Marker(), Marker()


def setup():
    from mc import plug

    context = {"here": CONTEXT, "plug": plug, "Built": 3, "namespace": 5}
    return plug, context


def matches(t, got, want, what):
    """want: ERROR never comes here."""
    from mc import plug

    if isinstance(want, tuple) and want and want[0] == "built":
        t.true(isinstance(got, plug.Built), f"{what}: {got!r}")
        prefix, content, by = got.seen
        t.eq((".".join(prefix), content, by), want[1:], what)
    elif want == "THING":
        t.true(type(got) is plug.Thing, f"{what}: {got!r}")
    elif want == "SPECIAL":
        t.is_(got, SPECIAL, what)
    elif want == "CONTEXT":
        t.is_(got, CONTEXT, what)
    else:
        t.same(got, want, what)


EXPECTED = {"object": object, "int": int, "Built": "Built", "Thing": "Thing", "Marker": Marker, "list": list, "float": float, "str": str}


def right_type(want, expected):
    if expected == "object":
        return True
    kind = {"SPECIAL": "Marker", "CONTEXT": "Marker", "THING": "Thing", "LIST": "list"}
    if isinstance(want, tuple) and want and want[0] == "built":
        return expected == "Built"
    if isinstance(want, str) and want in kind:
        return expected == kind[want]
    return type(want).__name__ == expected


def place(value, name, prefix):
    """Parameters where name (dotted) holds value, seen from under a prefix."""
    from vistautils.parameters import Parameters

    d = {}
    if value is not None:
        cur = d
        parts = name.split(".")
        for p in parts[:-1]:
            cur = cur.setdefault(p, {})
        cur[parts[-1]] = value
    d["unrelated"] = {"value": "'decoy'", "factory": "decoy"}
    if prefix:
        return Parameters.from_mapping({prefix: d, "value": "7"}).namespace(prefix)
    return Parameters.from_mapping(d)


def shapes(full=True):
    """Every way the parameter can be given."""
    yield ("absent",)
    for v in VALUES:
        yield ("string", v)
        for imp in (False, True):
            yield ("value", v, imp)
    for f in ("special", "special object"):
        yield ("string factory", f)
    for f in FACTORIES:
        for imp in (False, True):
            yield ("factory", f, imp)
    yield ("both",)
    yield ("neither", True)
    yield ("neither", False)
    yield ("leaf", 5)
    yield ("leaf", ["1"])
    yield ("bad value",)
    yield ("bad factory",)


def gen_objects(tier):
    for shape in shapes():
        for dv in DEFAULT_VALUES:
            for df in DEFAULT_FACTORIES:
                if shape[0] not in ("absent", "neither") and not thorough(tier) and dv != "none" and df not in ("none", "function"):
                    continue
                for ctx in (True, False):
                    for name, prefix in (("x", ""), ("in.ner.x", ""), ("x", "outer")):
                        for names in (("value", "factory"), ("v", "type")):
                            if names[0] == "v" and (prefix or "." in name) and not thorough(tier):
                                continue
                            yield (shape, dv, df, ctx, name, prefix, names)


def model(shape, dv, df, ctx, full, content):
    """What the documentation promises, as a value, a ('built', …) or ERROR."""

    def apply(kind, params):
        if kind in ("class", "function"):
            return ("built", full, params, kind)
        if kind == "special":
            return ("built", full, params, "function")
        if kind == "thing":
            return "THING"
        return kind

    def default(params):
        if dv != "none":
            return {"right": 7, "falsy": 0, "wrong type": "LIST"}[dv]
        if df != "none":
            return {"function": ("built", full, params, "function"), "class": ("built", full, params, "class"), "plain class": "THING", "not callable": ERROR}[df]
        return ERROR

    if shape[0] == "absent":
        return default({})
    if shape[0] == "neither":
        return default(content)
    if shape[0] in ("both", "leaf", "bad value", "bad factory"):
        return ERROR
    if shape[0] == "string":
        expr, result, needs = VALUES[shape[1]]
        if "namespace" in needs:
            return ("unsettled",)
        if "context" in needs and not ctx:
            return ERROR
        return result
    if shape[0] == "value":
        expr, result, needs = VALUES[shape[1]]
        if "context" in needs and not ctx:
            return ERROR
        if "import" in needs and not shape[2]:
            return ERROR if result is ERROR else ("unsettled",)
        return result
    if shape[0] == "string factory":
        return apply("special", {})
    if shape[0] == "factory":
        expr, kind, needs = FACTORIES[shape[1]]
        if "context" in needs and not ctx:
            return ERROR
        if "import" in needs and not shape[2]:
            return ("unsettled",)
        return apply(kind, content) if kind is not ERROR else ERROR
    raise AssertionError(shape)


def run_objects(case, t):
    shape, dv, df, ctx, name, prefix, (vname, fname) = case
    plug, context = setup()
    t.state(repr((shape, dv, df, ctx)))
    content = None
    if shape[0] == "string":
        given = VALUES[shape[1]][0]
    elif shape[0] == "string factory":
        given = FACTORIES[shape[1]][0]
    elif shape[0] in ("value", "factory"):
        given = {(vname if shape[0] == "value" else fname): (VALUES if shape[0] == "value" else FACTORIES)[shape[1]][0], "extra": [1, 2], "sub": {"deep": 0}}
        if shape[2]:
            given["import"] = ["json", "mc.plug"]
    elif shape[0] == "both":
        given = {vname: "1", fname: "plug.build"}
    elif shape[0] == "neither":
        given = {"extra": 1, "sub": {"deep": 0}} if shape[1] else {"valu": "1"}
    elif shape[0] == "leaf":
        given = shape[1]
    elif shape[0] == "bad value":
        given = {vname: 5}
    elif shape[0] == "bad factory":
        given = {fname: ["plug.build"]}
    else:
        given = None
    p = place(given, name, prefix)
    full = ".".join(x for x in (prefix, name) if x)
    content = given if isinstance(given, dict) else {}
    want = model(shape, dv, df, ctx, full, content)
    if want == ("unsettled",):
        t.outcome("whether a namespace imports by itself is not promised")
        return
    kw = {
        "special_values": {"special": SPECIAL, "special falsy": 0, "special import": "mc.plug.NUMBER", "special both": 42, "special.dotted": 42, "no_such_package.special": 42},
        "special_factories": {"special factory": "mc.plug.build" if shape[0] == "string factory" else "plug.build", "special object": plug.build, "x": "no_such", "special both": plug.build, "special import": "mc.plug.build"},
    }
    if shape[0] == "factory" and shape[1] == "special" and not ctx:
        return
    if vname != "value":
        kw["value_namespace_param_name"] = vname
        kw["factory_namespace_param_name"] = fname
    if dv != "none":
        kw["default_value"] = {"right": 7, "falsy": 0, "wrong type": []}[dv]
    if df != "none":
        kw["default_factory"] = {"function": plug.build, "class": plug.Built, "plain class": plug.Thing, "not callable": "text"}[df]
    before = dict(context)
    if ctx:
        kw["context"] = context
    for expected, typ in EXPECTED.items():
        if isinstance(typ, str):
            typ = getattr(plug, typ)
        w = f"object_from_parameters({name!r}, {expected}) given {given!r}, default value {dv}, default factory {df}, context {ctx}"
        ok = want is not ERROR and right_type(want, expected)
        if ok:
            got = t.call(lambda: p.object_from_parameters(name, typ, **kw), w)
            if want == "LIST":
                t.eq(got, [], w)
            else:
                matches(t, got, want, w)
            t.outcome("object")
        else:
            t.raises(Exception, lambda: p.object_from_parameters(name, typ, **kw), w)
    t.eq(context, before, "the caller's context is left alone")


def gen_evaluate(tier):
    for shape in shapes():
        if shape[0] in ("string factory", "factory", "both", "bad factory"):
            continue
        for default in ("none", 7, 0, "", False):
            for ctx in (True, False):
                for name, prefix in (("x", ""), ("in.ner.x", ""), ("x", "outer")):
                    for vname in ("value", "v"):
                        yield (shape, default, ctx, name, prefix, vname)


def run_evaluate(case, t):
    from vistautils.parameters import ParameterError

    shape, default, ctx, name, prefix, vname = case
    plug, context = setup()
    t.state(repr((shape, default, ctx)))
    if shape[0] == "string":
        given = VALUES[shape[1]][0]
    elif shape[0] == "value":
        given = {vname: VALUES[shape[1]][0], "extra": 1}
        if shape[2]:
            given["import"] = ["json", "mc.plug"]
    elif shape[0] == "neither":
        given = {"extra": "1"}
    elif shape[0] == "leaf":
        given = shape[1]
    elif shape[0] == "bad value":
        given = {vname: 5}
    else:
        given = None
    p = place(given, name, prefix)
    if shape[0] == "absent":
        want = ERROR if default == "none" else default
    elif shape[0] == "neither":
        want = ERROR
    else:
        want = model(shape, "none", "none", ctx, "", {})
        if shape[0] in ("string", "value") and shape[1] == "special":
            want = 43
    if want == ("unsettled",):
        return
    if shape[0] != "absent" and default != "none" and want is ERROR:
        # a parameter which is there is never replaced by the default
        pass
    kw = {"special_values": {"special": "40 + 3", "special falsy": "0", "special import": "mc.plug.NUMBER", "special both": "42", "special.dotted": "41 + 1", "no_such_package.special": "40 + 2"}}
    if vname != "value":
        kw["namespace_param_name"] = vname
    okw = dict(kw)
    if default != "none":
        kw["default"] = default
    before = dict(context)
    if ctx:
        kw["context"] = context
    for expected, typ in EXPECTED.items():
        if isinstance(typ, str):
            typ = getattr(plug, typ)
        w = f"evaluate({name!r}, {expected}) given {given!r}, default {default!r}, context {ctx}"
        if shape[0] == "absent" and want is not ERROR:
            if type(want).__name__ == expected or expected == "object":
                t.same(t.call(lambda: p.evaluate(name, typ, **kw), w), want, w)
            continue
        if want is not ERROR and right_type(want, expected):
            got = t.call(lambda: p.evaluate(name, typ, **kw), w)
            if want == "LIST":
                t.eq(got, [], w)
            else:
                matches(t, got, want, w)
            t.outcome("evaluated")
        else:
            t.raises(ParameterError, lambda: p.evaluate(name, typ, **kw), w)
        if default == "none" and not ctx:
            w = "optional_" + w
            if shape[0] == "absent":
                t.is_(t.call(lambda: p.optional_evaluate(name, typ, **okw), w), None, w)
            elif want is not ERROR and right_type(want, expected):
                got = t.call(lambda: p.optional_evaluate(name, typ, **okw), w)
                t.true(got == [] if want == "LIST" else True, w)
                if want != "LIST":
                    matches(t, got, want, w)
            else:
                t.raises(ParameterError, lambda: p.optional_evaluate(name, typ, **okw), w)
    t.eq(context, before, "the caller's context is left alone")


SPACES = [
    Space("objects", gen_objects, run_objects, "every shape of the parameter (23 values, 15 factories, both, neither, leaves) x 4 default values x 5 default factories x context x nesting x entry names x 8 expected types"),
    Space("evaluate", gen_evaluate, run_evaluate, "every shape of the parameter x 5 defaults x context x nesting x entry names x 8 expected types"),
]
