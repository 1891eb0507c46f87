"""C15 stores opened through parameters."""
import itertools
import os
from pathlib import Path

from mc.core import Space, thorough, Violation
from mc.checks.c11 import make_sink, make_source, enc

CORPORA = (
    (),
    (("a", ""),),
    (("a", "x"), ("b", "\u00e9\n\U0001f600")),
    (("k.txt", "1"), ("d", "2\n\n"), ("\u4e2d", "0")),
)
NS = ("", "data", "deep.er")


def params_for(ns, content, extra=None):
    from vistautils.parameters import Parameters

    d = dict(content) if isinstance(content, dict) else content
    for part in reversed(ns.split(".")):
        d = {part: d}
    d["other"] = {"type": "zip", "path": "/nonexistent/decoy.zip"}
    return Parameters.from_mapping(d)


def factory(which, kind):
    from vistautils import key_value as kv

    return getattr(kv, {"char": "char", "bytes": "byte"}[kind] + "_key_value_" + which + "_from_params")


def open_it(which, kind, ns, content, context):
    f = factory(which, kind)
    kw = {}
    name = {"sink": "output"}.get(which, "input")
    if ns:
        kw[{"sink": "output_namespace"}.get(which, "input_namespace")] = ns
    if context is not None:
        kw["eval_context"] = context
    return f(params_for(ns or name, content), **kw)


SOURCE_TYPES = ("zip", "file-map", "untyped path", "untyped docIdToFileMap", "file-map docIdToFileMap", "imported function", "imported class",
                "context function", "context class", "context shadows", "module function", "string", "value", "module class")


def source_setup(t, kind, typ, entries):
    """(params content, context) describing a store holding entries."""
    d = Path(t.dir)
    raw = {k: enc(kind, v) for k, v in entries}
    if typ in ("file-map", "untyped path", "untyped docIdToFileMap", "file-map docIdToFileMap"):
        lines = []
        for i, (k, v) in enumerate(raw.items()):
            p = d / f"value{i}"
            p.write_bytes(v.encode("utf-8") if kind == "char" else v)
            lines.append(f"{k}\t{p}\n")
        (d / "map").write_text("".join(lines), encoding="utf-8")
        c = {("docIdToFileMap" if "docId" in typ else "path"): str(d / "map")}
        if typ.startswith("file-map"):
            c["type"] = "file-map"
        return c, None
    with make_sink(kind, d / "s.zip", "plain") as s:
        for k, v in raw.items():
            s.put(k, v)
    from mc import plug

    n = {"char": "char", "bytes": "byte"}[kind]
    c = {"where": str(d / "s.zip"), "path": "/nonexistent"}
    if typ == "zip":
        return {"type": "zip", "path": str(d / "s.zip")}, None
    if typ == "imported function":
        return dict(c, type=f"mc.plug.{n}_source", **{"import": ["mc.plug"]}), None
    if typ == "imported class":
        return dict(c, type=f"mc.plug.{n.capitalize()}Source", **{"import": ["json", "mc.plug"]}), {"x": 1}
    if typ == "context function":
        return dict(c, type="f"), {"f": getattr(plug, f"{n}_source")}
    if typ == "context class":
        return dict(c, type="Here"), {"Here": getattr(plug, f"{n.capitalize()}Source")}
    if typ == "context shadows":  # the caller's names win over those of the library module
        return dict(c, type="Path"), {"Path": getattr(plug, f"{n}_source")}
    if typ == "module function":  # the library's own names need no import
        return {"type": f"KeyValueSource.zip_{'character' if kind == 'char' else 'bytes'}_source", "path": "p"}, None
    if typ == "module class":
        return {"type": "_Zip%sFileKeyValuesSource" % ("Char" if kind == "char" else "Bytes"), "path": str(d / "s.zip")}, None
    src = make_source(kind, d / "s.zip", "plain")
    if typ == "string":
        return "the_store", {"the_store": src}
    return {"value": "the_store"}, {"the_store": src}


def gen_source(tier):
    for kind in ("char", "bytes"):
        for which in ("source", "linear_source"):
            for typ in SOURCE_TYPES:
                if typ.startswith("module"):
                    continue
                for ns in NS:
                    for entries in CORPORA[: 4 if thorough(tier) or ns == "" else 3]:
                        yield (kind, which, typ, ns, entries)


def run_source(case, t):
    from vistautils.key_value import KeyValueLinearSource, KeyValueSource
    from vistautils.parameters import Parameters

    kind, which, typ, ns, entries = case
    want = {k: enc(kind, v) for k, v in entries}
    content, context = source_setup(t, kind, typ, entries)
    before = dict(context) if context is not None else None
    t.state(case)
    t.outcome(typ)
    w = f"the {kind} {which} described by {content!r}"
    src = t.call(lambda: open_it(which, kind, ns, content, context), w)
    t.true(isinstance(src, KeyValueSource if which == "source" else KeyValueLinearSource), f"kind of {w}")
    for _ in range(2):
        with src as s:
            got = list(s.items())
            t.eq((len(got), dict(got)), (len(want), want), f"items of {w}")
            t.true(all(type(v) is type(enc(kind, "")) for _, v in got), f"types of the values of {w}")
            t.eq(dict(s.items(key_filter=lambda k: k > "b")), {k: v for k, v in want.items() if k > "b"}, f"filtered items of {w}")
            if which == "source":
                for k, v in want.items():
                    t.same(s[k], v, f"{k!r} in {w}")
                t.raises(KeyError, lambda: s["absent"], f"absent key in {w}")
                t.is_(s.get("absent"), None, f"absent key in {w}")
    t.eq(context, before, "the caller's evaluation context is left alone")
    if "function" in typ or "class" in typ and typ != "module class":
        from mc import plug

        seen = plug.CALLS[-1]
        t.eq(seen.as_nested_dicts(), content, f"parameters given to the factory of {w}")
        t.eq(".".join(seen.namespace_prefix), ns or "input", f"full name of the parameters given to the factory of {w}")
        del plug.CALLS[:]


SINK_TYPES = ("zip", "file-map", "directory", "untyped", "imported function", "imported class", "context function", "context class", "string", "value")


def gen_sink(tier):
    for kind in ("char", "bytes"):
        for typ in SINK_TYPES:
            for ns in NS:
                for entries in CORPORA[: 4 if thorough(tier) or ns == "" else 3]:
                    yield (kind, typ, ns, entries)


def run_sink(case, t):
    from mc import plug
    from vistautils.key_value import KeyValueSink

    kind, typ, ns, entries = case
    t.state(case)
    t.outcome(typ)
    d = Path(t.dir)
    want = {k: enc(kind, v) for k, v in entries}
    n = {"char": "char", "bytes": "byte"}[kind]
    context = None
    z, out = d / "new" / "s.zip", d / "out"
    out.mkdir()
    (out.parent / "bystander").write_text("x")
    c = {"where": str(d / "s.zip"), "path": "/nonexistent"}
    if typ == "zip":
        content = {"type": "zip", "path": str(z)}
    elif typ in ("file-map", "directory"):
        content = {"type": typ, "path": str(out)}
    elif typ == "untyped":
        content = {"path": str(out)}
    else:
        z = d / "s.zip"
        if typ == "imported function":
            content = dict(c, type=f"mc.plug.{n}_sink", **{"import": ["mc.plug"]})
        elif typ == "imported class":
            content = dict(c, type=f"mc.plug.{n.capitalize()}Sink", **{"import": ["mc.plug"]})
            context = {}
        elif typ == "context function":
            content, context = dict(c, type="f"), {"f": getattr(plug, f"{n}_sink")}
        elif typ == "context class":
            content, context = dict(c, type="Here"), {"Here": getattr(plug, f"{n.capitalize()}Sink")}
        else:
            context = {"the_sink": make_sink(kind, z, "plain")}
            content = "the_sink" if typ == "string" else {"value": "the_sink"}
    w = f"the {kind} sink described by {content!r}"
    sink = t.call(lambda: open_it("sink", kind, ns, content, context), w)
    t.true(isinstance(sink, KeyValueSink), f"kind of {w}")
    with sink as s:
        for k, v in want.items():
            t.call(lambda: s.put(k, v), f"put({k!r}, {v!r}) to {w}")
    if typ in ("file-map", "directory", "untyped"):
        from vistautils.io_utils import CharSource, read_doc_id_to_file_map

        m = read_doc_id_to_file_map(CharSource.from_file(out / "_index"))
        t.eq({k: p.read_bytes() for k, p in m.items()}, {k: v.encode("utf-8") if kind == "char" else v for k, v in want.items()},
             f"files listed by the index of {w}")
        t.true(all(p.parent == out for p in m.values()), f"files of {w} are in the directory: {m}")
        t.eq(sorted(os.listdir(out)), sorted([p.name for p in m.values()] + ["_index"]), f"content of the directory of {w}")
    else:
        with make_source(kind, z, "plain") as s:
            got = list(s.items())
        t.eq((len(got), dict(got)), (len(want), want), f"what {w} stored")
    t.eq((d / "bystander").read_text(), "x", "a bystander file")


BAD_SOURCE = (
    {"type": "zip"},
    {"type": "zip", "path": "@absent"},
    {"type": "zip", "path": "@dir"},
    {"type": "zip", "path": "@map"},
    {"type": "file-map"},
    {"type": "file-map", "path": "@absent"},
    {"type": "file-map", "path": "@dir"},
    {"type": "file-map", "path": "@badmap"},
    {"type": "file-map", "path": "@danglingmap"},
    {"path": "@absent"},
    {"path": "@dir"},
    {"path": "@badmap"},
    {"docIdToFileMap": "@absent"},
    {},
    {"path": 5},
    {"type": "unknown_thing", "path": "@map"},
    {"type": "Zip", "path": "@zip"},
    {"type": "", "path": "@map"},
    {"type": 5, "path": "@map"},
    {"type": "len", "path": "@map"},
    {"type": "json.loads", "path": "@map"},
    {"type": "f", "path": "@map"},
    {"type": "sink", "path": "@newzip"},
    {"type": "NUMBER", "path": "@map"},
    {"type": "zip", "value": "f", "path": "@zip"},
    {"type": "mc.no_such_module.f", "import": ["mc.no_such_module"], "path": "@map"},
    "zip",
    "file-map",
    "unknown_thing",
    "NUMBER",
    "@absent",
    None,
)
BAD_SINK = (
    {"type": "zip"},
    {"type": "zip", "path": "@file/x.zip"},
    {"type": "zip", "path": "@dir"},
    {"type": "file-map"},
    {"type": "file-map", "path": "@absent"},
    {"type": "directory", "path": "@absent"},
    {"type": "directory", "path": "@file"},
    {"type": "directory", "path": "@full"},
    {"path": "@absent"},
    {"path": "@full"},
    {},
    {"type": "unknown_thing", "path": "@dir"},
    {"type": "Zip", "path": "@newzip"},
    {"type": "len", "path": "@dir"},
    {"type": "f", "path": "@dir"},
    {"type": "source", "path": "@zip"},
    {"type": "zip", "value": "f", "path": "@newzip"},
    "zip",
    "directory",
    "unknown_thing",
    "NUMBER",
    None,
)


def gen_bad(tier):
    for kind in ("char", "bytes"):
        for which, cases in (("source", BAD_SOURCE), ("linear_source", BAD_SOURCE), ("sink", BAD_SINK)):
            for i in range(len(cases)):
                for ns in ("",) if not thorough(tier) else NS:
                    yield (kind, which, i, ns)


def run_bad(case, t):
    kind, which, i, ns = case
    content = (BAD_SINK if which == "sink" else BAD_SOURCE)[i]
    t.state((which, kind, i))
    d = Path(t.dir)
    (d / "dir").mkdir()
    (d / "full").mkdir()
    (d / "full" / "kept").write_text("kept")
    (d / "file").write_text("a file")
    (d / "v").write_text("value")
    (d / "map").write_text(f"a\t{d}/v\n")
    (d / "badmap").write_text(f"a {d}/v\n")
    (d / "danglingmap").write_text(f"a\t{d}/nowhere\n")
    with make_sink(kind, d / "zip", "plain") as s:
        s.put("a", enc(kind, "value"))

    def sub(x):
        return str(d / x[1:]) if isinstance(x, str) and x.startswith("@") else x

    content = {k: sub(v) for k, v in content.items()} if isinstance(content, dict) else sub(content)
    from mc import plug

    context = {"f": lambda p: 42, "NUMBER": 42, "sink": lambda p: make_sink(kind, d / "newzip", "plain"),
               "source": lambda p: make_source(kind, d / "zip", "plain")}

    def attempt():
        from vistautils.parameters import Parameters

        if content is None:  # the namespace is not there at all
            f = factory(which, kind)
            x = f(Parameters.from_mapping({"unrelated": {"type": "zip", "path": str(d / "zip")}}))
        else:
            x = open_it(which, kind, ns, content, context)
        with x as s:
            if which == "sink":
                s.put("a", enc(kind, "v"))
            else:
                list(s.items())
        return x

    t.raises(Exception, attempt, f"opening the {kind} {which} described by {content!r}")
    t.eq((d / "full" / "kept").read_text(), "kept", "what a non-empty directory held")
    t.eq((d / "file").read_text(), "a file", "a file in the way")


CONTEXTS = ("none", "A", "B", "every library name")


def gen_calls(tier):
    calls = [(which, kind, c) for which in ("source", "linear_source", "sink") for kind in ("char", "bytes") for c in CONTEXTS]
    for a in calls:
        for b in calls:
            if thorough(tier) or a[2] != "none":
                yield (a, b)
    for p in itertools.product(CONTEXTS, repeat=3 if not thorough(tier) else 4):
        for which in ("source", "sink"):
            yield tuple((which, "char", c) for c in p)


def run_calls(case, t):
    """What one call is given is not seen by the next."""
    from vistautils import key_value

    t.state(case)
    d = Path(t.dir)
    for j, (which, kind, c) in enumerate(case):
        where = {}
        for name in "AB":
            where[name] = d / f"{j}{name}.zip"
            if which != "sink":
                with make_sink(kind, where[name], "plain") as s:
                    s.put("who", enc(kind, name))

        def maker(name):
            return lambda p: (make_sink if which == "sink" else make_source)(kind, where[name], "plain")

        context = {"none": None, "A": {"f": maker("A")}, "B": {"f": maker("B"), "g": 1},
                   "every library name": {n: 0 for n in dir(key_value) if not n.startswith("__")}}[c]
        before = None if context is None else dict(context)
        w = f"call {j} of {case}"
        open_f = lambda: open_it(which, kind, "", {"type": "f"}, context)
        if c in "AB":
            with t.call(open_f, w) as s:
                if which == "sink":
                    s.put("who", enc(kind, c))
                else:
                    t.eq(list(s.items()), [("who", enc(kind, c))], w)
            if which == "sink":
                t.eq([n for n in "AB" if where[n].exists()], [c], f"the store written by {w}")
        else:
            t.raises(Exception, open_f, f"a name which this call does not define: {w}")
        if context is not None:
            t.eq(context, before, f"the context given to {w}")
        # a plain store still opens
        if which == "sink":
            with t.call(lambda: open_it("sink", kind, "", {"type": "zip", "path": str(d / f"{j}.zip")}, None), w) as s:
                s.put("k", enc(kind, "v"))
            (d / f"dir{j}").mkdir()
            with t.call(lambda: open_it("sink", kind, "", {"path": str(d / f"dir{j}")}, None), w) as s:
                s.put("k", enc(kind, "v"))
        else:
            with t.call(lambda: open_it(which, kind, "", {"type": "zip", "path": str(where["A"])}, None), w) as s:
                t.eq(list(s.items()), [("who", enc(kind, "A"))], w)


SPACES = [
    Space("sources", gen_source, run_source, "4 factories x 12 ways of describing a store x 3 namespaces x 4 corpora", tmp=True),
    Space("sinks", gen_sink, run_sink, "2 factories x 10 ways of describing a store x 3 namespaces x 4 corpora", tmp=True),
    Space("refused", gen_bad, run_bad, "6 factories x every invalid description", tmp=True),
    Space("calls", gen_calls, run_calls, lambda tier: "all pairs of calls over 6 factories x 4 contexts, and sequences of %d" % (3 if tier == "quick" else 4), tmp=True),
]
