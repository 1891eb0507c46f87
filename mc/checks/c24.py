"""C24 included parameter files are merged in order with later files winning."""
import itertools
import json
import os
from pathlib import Path

from mc.core import Space, thorough, seqs
from mc import many
from mc.checks.c23 import Fails, interpolated
from mc.trees import Conflict, merge, nested, same, fresh, listing, listed

WHERE = ("main.params", "sub/one.params", "sub/deep/$HOME.yaml", "other dir/~ %x%.params")


def content(template, i):
    return {
        "leaf": {"x": f"x{i}\u00e9\u20ac"},
        "uses": {"n": {"k": f"k{i}"}, f"y{i}": "%x%"},
        "more": {"z": "%x%+%n.k%", "n": {"l": i}},
        "empty": {},
        "back": {"x": f"%y{3}%" if i == 0 else f"%y{i - 1}%", "falsy": 0},
        "conflict": {"n": f"leaf{i}", "x": 0},
        "chain": {"x": f"[%x2%]\u00e9{i}", "x2": f"x2.{i}"},
        "append": {"_included": i, "_include": "x", "includes": [], "__includes": 0, f"w{i}": "%x%", "x": f"new{i}", "n": {"k": [i], "inner": {"_includes": ["not a file"]}}},
    }[template]


TEMPLATES = ("leaf", "uses", "more", "empty", "back", "conflict", "chain", "append")


def relative(target, source, style):
    rel = os.path.relpath(target, os.path.dirname(source) or ".")
    if style == "absolute":
        return os.path.abspath(target)
    if style == "dotted":
        return "./" + rel
    if style == "roundabout":
        return os.path.join("..", os.path.basename(os.path.dirname(os.path.abspath(source))), rel)
    return rel


def write(path, d):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(d if isinstance(d, str) else json.dumps(d, ensure_ascii=False))


def model(i, graph, data, context):
    prev = context
    for j in graph[i]:
        prev = merge(prev, model(j, graph, data, prev))
    return merge(prev, interpolated(data[i], prev, {}))


def check(t, case_text, graph, data, context, style, how, cwd, include_last=False):
    from vistautils.parameters import Parameters, YAMLParametersLoader

    try:
        want = model(0, graph, data, context)
    except (Fails, Conflict) as e:
        want = e
    for i, d in enumerate(data):
        styles = style if isinstance(style, tuple) else (style,) * len(data)
        inc = [relative(WHERE[j], WHERE[i], styles[j]) for j in graph[i]]
        d = fresh(d)
        if inc or i == 1:
            d = {**d, "_includes": inc} if include_last else {"_includes": inc, **d}
        write(WHERE[i], d)
    main = WHERE[0]
    os.makedirs(cwd, exist_ok=True)
    top = os.getcwd()
    os.chdir(cwd)
    try:
        loader = YAMLParametersLoader(interpolate_environmental_variables=False)
        target = os.path.relpath(os.path.join(top, main)) if how.startswith("relative") else os.path.join(top, main)
        given = Parameters.from_mapping(fresh(context))
        kw = {"included_context": given} if context or how.endswith("Path") else {}
        if how == "string":
            with open(target, encoding="utf-8") as f:
                text = f.read()
            load = lambda: loader.load_string(text, **kw)  # noqa
        elif how.endswith("context"):
            load = lambda: loader.load(target, given)  # noqa
            t.raises(Exception, lambda: loader.load(target, given, included_context=given), f"{case_text}: two contexts")
        elif how.endswith("Path"):
            load = lambda: loader.load(Path(target), **kw)  # noqa
        else:
            load = lambda: loader.load(target, **kw)  # noqa
        if how == "string" and graph[0] and any(styles[j] != "absolute" for j in graph[0]):
            t.raises(IOError, load, f"{case_text}: relative includes in a string")
            return
        if isinstance(want, Exception):
            t.raises(IOError, load, f"{case_text} ({type(want).__name__} {want})")
            t.outcome(type(want).__name__)
        else:
            p = t.call(load, case_text)
            t.true(same(nested(p), want), f"{case_text} gives {nested(p)!r}, not {want!r}")
            t.eq(listing(p), listed(want), f"names after {case_text}")
            t.outcome("loads")
        t.true(same(nested(given), context), f"the context after {case_text}")
    finally:
        os.chdir(top)


def graphs3():
    for g0 in seqs((1, 2), 0, 2):
        for g1 in ((), (2,)):
            yield (g0, g1, ())


def graphs4(full):
    first = list(seqs((1, 2, 3), 0, 2)) + list(itertools.permutations((1, 2, 3)))
    for g0 in first:
        for g1 in seqs((2, 3), 0, 2):
            for g2 in ((), (3,)):
                if not full and (not g0 or (1 not in g0 and g1) or (2 not in g0 and 2 not in g1 and g2)):
                    continue
                yield (g0, g1, g2, ())


def gen_graphs(tier):
    for g in graphs3():
        for ts in itertools.product(TEMPLATES, repeat=3):
            if g[0] or ts[1:] == ("leaf", "leaf"):
                yield (g, ts)
    kinds = ("leaf", "uses", "chain", "append") if thorough(tier) else ("uses", "append")
    for g in graphs4(thorough(tier)):
        for ts in itertools.product(kinds, repeat=4):
            yield (g, ts)


def run_graphs(case, t):
    g, ts = case
    t.state(case)
    data = [content(x, i) for i, x in enumerate(ts)]
    w = f"loading {data} where the files include {g}"
    check(t, w, g, data, {}, "plain", "absolute", ".")
    check(t, w + " with context", g, data, {"x": "ctx", "n": {"k": "c", "c": 0}, "y3": "top"}, "plain", "relative Path", ".", include_last=True)


def gen_paths(tier):
    styles = ("plain", "absolute", "dotted", "roundabout")
    for g in (((), (), (), ()), ((1,), (2,), (3,), ()), ((1, 2, 3), (), (), ()), ((2, 1), (3,), (3,), ()), ((3, 3), (), (), ()), ((2,), (), (3, 1), ())):
        for style in itertools.product(styles, repeat=2):
            for how in ("absolute", "relative", "absolute Path", "relative Path", "relative with positional context", "string"):
                for cwd in (".", "sub", "sub/deep", "elsewhere"):
                    yield (g, style, how, cwd)


def run_paths(case, t):
    g, style, how, cwd = case
    t.state(case)
    data = [content(x, i) for i, x in enumerate(("append", "uses", "leaf", "append"))]
    # decoys where a path resolved against the wrong directory would look
    for d in ("", "sub", "sub/deep", "other dir", "elsewhere"):
        for w in WHERE:
            p = os.path.join(d, os.path.basename(w))
            if p not in WHERE:
                write(p, {"decoy": p})
    styles = (style[0], style[0], style[1], style[1])
    w = f"loading {how} from {cwd}, includes {g} written {style}"
    check(t, w, g, data, {"x": "ctx"}, styles, how, cwd)


# --- includes with odd names: they are the names of files, as they are -------------------------
ODD = ("~/x.params", "~.params", "~root/x.params", "~nobody", "$HOME/x.params", "${PWD}x", "%x%.params", " lead.params", "trail.params ", "a#b", "*.params", "[a]b", "a?", "file:x.params",
       "file:///x.params", "C:\\x.params", "a\\b", "-x", "\u00e9\u4e2d.params", "a\nb", "'q'", "UP.params", "no_extension", "x.json", ".hidden", "...", "a b/c d.params", "x.params?y=1", "x.params#y")


def gen_odd(tier):
    for name in ODD:
        for there in ("there", "tidier only", "neither"):
            for where in ("", "sub/"):
                for how in ("relative", "absolute"):
                    yield (name, there, where, how)


def run_odd(case, t):
    from vistautils.parameters import YAMLParametersLoader

    name, there, where, how = case
    t.state(case)
    home = os.path.abspath("home")
    os.environ["HOME"] = home
    # what it would be taken for if it were not used as it is
    decoys = {os.path.expanduser(name), os.path.expandvars(name), name.strip(), name.lower(), name.replace("%x%", "1"), name.strip("'"), name.replace("\\", "/"), name.replace("file:", ""),
              name.replace("file://", ""), name.split("#")[0], name.split("?")[0], name.replace("*", "z"), name.replace("[a]", "a"), name.replace("?", "z"), name + ".params", name + ".yaml"} - {name}
    if there != "neither":
        for d in decoys:
            p = d if os.path.isabs(d) else where + d
            if d and os.path.abspath(p).startswith(os.getcwd()) and not os.path.isdir(p) and d.strip(".") and not d.endswith("/"):
                try:
                    write(p, {"got": f"decoy {d}"})
                except OSError:
                    pass
    if there == "there":
        write(where + name, {"got": "right", "x": 2})
    inc = os.path.abspath(where) + "/" + name if how == "absolute" else name
    write(where + "main.params", {"x": 1, "_includes": [inc], "after": "%got%"})
    load = lambda: YAMLParametersLoader().load(where + "main.params")  # noqa
    w = f"loading a file which includes {inc!r} where that is {there}"
    if there == "there":
        p = t.call(load, w)
        t.true(same(nested(p), {"got": "right", "x": 1, "after": "right"}), f"{w}: {nested(p)!r}")
        t.outcome("loads")
    else:
        t.raises(IOError, load, w)
        t.outcome("fails")


# --- includes by paths through symbolic links: the file which opening the path would open -------
def gen_links(tier):
    parts = ("link", "up", "..", "real", "deep", "back", ".")
    ways = [w for k in range(0, 4 if thorough(tier) else 3) for w in itertools.product(parts, repeat=k)]
    for how in ("relative", "absolute", "through a link", "through a link, absolute", "string"):
        for w in ways:
            yield (how, w, None)
    few = [w for w in ways if len(w) <= (2 if thorough(tier) else 1)] + [("link", ".."), ("up", "deep", ".."), ("back", "link", "..")]
    for how in ("relative", "through a link", "string"):
        for w in few:
            for v in few:
                yield (how, w, v)


def run_links(case, t):
    from vistautils.parameters import YAMLParametersLoader

    how, first, second = case
    t.state(case)
    for d in ("", "real", "real/deep", "real/deep/link"):
        write(os.path.join(d, "x.params"), {"got": "in " + d})
    os.symlink("real/deep", "link")
    os.symlink(os.path.abspath("real"), "up")
    os.symlink("../..", "real/deep/back")
    os.symlink("..", "real/back")
    main = {"relative": "main.params", "absolute": os.path.abspath("main.params"), "string": "",
            "through a link": "link/main.params", "through a link, absolute": os.path.abspath("up") + "/deep/main.params"}[how]
    base = os.path.dirname(main) or "."
    top = os.path.join(*first, "x.params" if second is None else "m.params")
    if how == "string" or how.endswith("absolute"):
        top = os.path.join(os.path.abspath(base) if how == "string" else base, top)
    doc = {"_includes": [top], "after": "%got%"}
    leads = os.path.join(base, top)
    there = os.path.isdir(os.path.dirname(leads))
    if second is not None and there:
        if not (os.path.realpath(leads) + "/").startswith(os.path.realpath(".") + "/"):
            return  # outside of the scratch directory
        write(leads, {"_includes": [os.path.join(*second, "x.params")], "middle": 1})
        leads = os.path.join(os.path.dirname(leads), *second, "x.params")
        there = os.path.isdir(os.path.dirname(leads))
    if there and os.path.isfile(leads):
        with open(leads) as f:
            want = f.read()
    else:
        want = None
    if main:
        write(main, doc)
        load = lambda: YAMLParametersLoader().load(main)  # noqa
    else:
        load = lambda: YAMLParametersLoader().load_string(json.dumps(doc))  # noqa
    w = f"loading {how} what includes {top!r}" + (f", which includes {os.path.join(*second, 'x.params')!r}" if second is not None else "")
    if want is None:
        t.raises(IOError, load, w)
        t.outcome("no such file")
        return
    p = t.call(load, w)
    got = json.loads(want)["got"]
    t.eq((p.string("got"), p.string("after")), (got, got), w)
    t.outcome("loads")


BAD = {
    "empty": "", "a list": "- a\n- b\n", "unclosed": "a: [", "a number": "5", "null": "null", "text": "just text",
    "number key": "1: a\n", "nested number key": "a:\n  1: b\n", "deeply nested number key": "a: {b: {c: {2: d}}}\n",
    **{f"number key {n} levels deep": "a: " + "{b: " * n + "{2: d}" + "}" * n + "\n" for n in (2, 3, 4, 5, 8, 20)},
    "number key after others": "a: {b: {c: 1}}\nd: {e: f, g: {h: {i: j}, k: {3: l}}}\n",
    "boolean key": "a: 1\ntrue: 1\n", "null key": "x: 1\n~: 1\n", "date key": "2001-01-01: x\n", "float key": "a: {1.5: x}\n",
    "tag": "a: !!python/object:os.system x\n", "two documents": "a: 1\n---\nb: 2\n", "tab": "a:\n\t- b\n", "dotted key": "a.b: 1\n",
    "undefined alias": "a: *b\n", "bad interpolation": "a: '%nowhere%'\n",
}
MISSING = ("gone.params", "./sub/gone.params", "/gone/gone.params", "sub", ".", "main.params/x")


def gen_bad(tier):
    for label in BAD:
        for depth in (0, 1, 2):
            for how in ("absolute", "relative", "absolute Path", "string"):
                yield ("bad", label, depth, how)
    for m in MISSING:
        for depth in (0, 1):
            for how in ("absolute", "relative", "absolute Path", "string"):
                for after in (False, True):
                    yield ("missing", m, depth, how, after)
    for how in ("absolute", "relative", "absolute Path"):
        yield ("no main", "none", 0, how)
        yield ("no main", "a directory", 0, how)
    for how in ("absolute", "relative", "string"):
        for n in (1, 2, 3):
            yield ("circle", "", n, how)


def run_bad(case, t):
    from vistautils.parameters import YAMLParametersLoader

    kind, what, depth, how = case[:4]
    t.state(case)
    good = {"good": 1}
    write("sub/good.params", good)
    if kind == "bad":
        names = ["main.params", "sub/one.params", "sub/two.params"]
        for i in range(depth):
            inc = os.path.abspath(names[i + 1]) if how == "string" or i else names[i + 1]
            write(names[i], {"_includes": [inc], "v": i})
        write(names[depth], BAD[what])
    elif kind == "missing":
        inc = [what, os.path.abspath("sub/good.params")]
        if how == "string" and depth:
            inc[0] = os.path.abspath(what)
        d = {"_includes": inc[::-1] if case[4] else inc, "v": 0}
        if depth:
            write("sub/one.params", d)
            write("main.params", {"_includes": [os.path.abspath("sub/one.params")]})
        else:
            write("main.params", d)
    elif kind == "no main":
        if what == "a directory":
            os.mkdir("main.params")
    else:
        names = ["main.params", "sub/one.params", "sub/two.params"][:depth]
        for i, n in enumerate(names):
            write(n, {"_includes": [os.path.abspath(names[(i + 1) % depth])], "v": i})
    loader = YAMLParametersLoader()
    target = "main.params" if how == "relative" else os.path.abspath("main.params")
    w = f"loading {case}"
    if how == "string":
        with open(target, encoding="utf-8") as f:
            text = f.read()
        load = lambda: loader.load_string(text)  # noqa
    elif how.endswith("Path"):
        load = lambda: loader.load(Path(target))  # noqa
    else:
        load = lambda: loader.load(target)  # noqa
    t.raises(Exception if kind == "circle" else IOError, load, w)


SPACES = [
    Space("graphs", gen_graphs, run_graphs, lambda tier: "all include graphs of 3 files x 8 contents each; all include graphs of 4 files x %d contents each; with and without context" % (4 if tier == "thorough" else 2), tmp=True),
    Space("paths", gen_paths, run_paths, "6 include graphs x 16 ways of writing the paths x 6 ways of loading x 4 working directories, with decoys", tmp=True),
    Space("odd names", gen_odd, run_odd, "%d odd names of included files (~, $, blanks, wildcards, URLs), there, there only under a tidier name, and neither, relative and absolute" % len(ODD), tmp=True),
    Space("links", gen_links, run_links, lambda tier: "every path of up to %d of 7 directories, symbolic links and .., relative, absolute, of a file loaded through a link; pairs of such includes" % (3 if tier == "thorough" else 2), tmp=True),
    Space("bad", gen_bad, run_bad, "19 malformed contents at 3 depths, missing includes, missing files, circles", tmp=True),
]

SPACES += many.BY_CHECK["C24"]
