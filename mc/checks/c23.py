"""C23 interpolation substitutes every placeholder by the right final value."""
import itertools
import json
import os

from mc.core import Space, thorough, seqs
from mc.trees import ABSENT, lookup, leaves_of, merge, nested, same, fresh, listing, listed

NAME_CHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-")


class Fails(Exception):
    pass


def split(text):
    """Literal strings and (placeholder,) tuples."""
    out, i, lit = [], 0, ""
    while i < len(text):
        if text[i] == "%":
            j = i + 1
            while j < len(text) and (text[j] in NAME_CHARS or text[j].isalpha()):
                j += 1
            if j > i + 1 and j < len(text) and text[j] == "%":
                if lit:
                    out.append(lit)
                out.append((text[i + 1 : j],))
                lit, i = "", j + 1
                continue
        lit += text[i]
        i += 1
    if lit:
        out.append(lit)
    return out


def interpolated(d, context, env):
    """d with every placeholder substituted, or Fails."""
    done = {}

    def tree(cur, path, stack):
        if isinstance(cur, dict):
            return {k: tree(v, path + (k,), stack) for k, v in cur.items()}
        if not isinstance(cur, str):
            return cur
        if path in stack:
            raise Fails("cycle")
        if path in done:
            return done[path]
        r = text(cur, stack + (path,))
        done[path] = r
        return r

    def value_of(name, stack):
        got = lookup(d, name)
        if got is not ABSENT:
            return tree(got, tuple(name.split(".")), stack)
        got = lookup(context, name)
        if got is not ABSENT:
            return got
        if name in env and name not in context:
            return env[name]
        raise Fails("unknown " + name)

    def text(s, stack):
        parts = split(s)
        if len(parts) == 1 and isinstance(parts[0], tuple):
            return value_of(parts[0][0], stack)
        out = ""
        for p in parts:
            if isinstance(p, tuple):
                v = value_of(p[0], stack)
                if not isinstance(v, str):
                    raise Fails("not text")
                out += v
            else:
                out += p
        return out

    return tree(d, (), ())


def compare(t, d, context, env, use_env=True, how="string"):
    from vistautils.parameters import Parameters, YAMLParametersLoader

    w = f"loading {d!r}" + (f" in the context {context!r}" if context else "") + (f" in the environment {env!r}" if env else "") + ("" if use_env else " without using the environment")
    try:
        want = merge(context, interpolated(d, context, env if use_env else {}))
    except Fails as e:
        want = e
    content = json.dumps(d, ensure_ascii=False)
    given = Parameters.from_mapping(fresh(context))
    saved = dict(os.environ)
    os.environ.clear()
    os.environ.update(env)
    try:
        loader = YAMLParametersLoader() if use_env else YAMLParametersLoader(interpolate_environmental_variables=False)

        def load():
            if how == "file":
                with open("p.params", "w", encoding="utf-8") as f:
                    f.write(content)
                return loader.load("p.params", included_context=given) if context else loader.load("p.params")
            if context:
                return loader.load_string(content, included_context=given)
            return loader.load_string(content)

        if isinstance(want, Fails):
            t.raises(IOError, load, f"{w} ({want})")
            t.outcome("fails: " + str(want).split()[0])
        else:
            p = t.call(load, w)
            t.true(same(nested(p), want), f"{w} gives {nested(p)!r}, not {want!r}")
            t.eq(listing(p), listed(want), f"names after {w}")
            t.outcome("loads")
    finally:
        os.environ.clear()
        os.environ.update(saved)
    t.true(same(nested(given), context), f"the context after {w}")


# --- dependency graphs -------------------------------------------------------
def values(targets, whole_only=()):
    out = ["v", "", 0, ["%a%"]]
    for x in targets:
        out.append(f"%{x}%")
        if x not in whole_only:
            out.append(f"<%{x}%>")
    return out


LAYOUTS = {
    "flat": ("a", "b", "c"),
    "nested": ("a", "n.b", "n.c"),
    "deep": ("n.a", "b", "n.m.c"),
}


def build(order, assigned):
    """A dictionary which defines the names in this order."""
    d = {}
    for name in order:
        cur = d
        parts = name.split(".")
        for p in parts[:-1]:
            cur = cur.setdefault(p, {})
        cur[parts[-1]] = assigned[name]
    return d


def gen_graphs(tier):
    for label, names in LAYOUTS.items():
        targets = names + (("n",) if label != "flat" else ()) + ("ctx", "ENVVAR") + (("gone",) if label == "flat" else ())
        vals = values(targets, ("n", "gone"))
        if not thorough(tier) and label != "flat":
            vals = [v for v in vals if v not in ("", "<%ctx%>", "%ENVVAR%", "<%ENVVAR%>", ["%a%"])]
        if label == "flat":
            vals += ["%a%%b%", "%b%-%c%", "%c%%a%%ctx%"]
        for vs in itertools.product(vals, repeat=3):
            yield (names, vs)
    if thorough(tier):
        names = ("a", "b", "n.c", "n.d")
        vals = ["v", 0] + [f for x in names for f in (f"%{x}%", f"<%{x}%>")] + ["%n%", "%a%%b%"]
        for vs in itertools.product(vals, repeat=4):
            yield (names, vs)


def run_graphs(case, t):
    names, vs = case
    t.state((names, repr(vs)))
    assigned = dict(zip(names, vs))
    seen = set()
    for order in itertools.permutations(names):
        d = build(order, assigned)
        key = json.dumps(d)
        if key not in seen:
            seen.add(key)
            compare(t, d, {"ctx": "C"}, {"ENVVAR": "E"})


# --- where the name is defined -------------------------------------------------
KINDS = ("v", "", 0, 7, 1.5, False, True, [], [1, "%x%"], {"k": "w"}, {})


def gen_places(tier):
    for name in ("x", "n.x", "n.m.x"):
        for f in (None,) + KINDS:
            for c in (None,) + KINDS:
                if isinstance(f, dict) != isinstance(c, dict) and f is not None and c is not None:
                    continue
                if isinstance(f, dict) and isinstance(c, dict):
                    continue
                for e in (None, "env", ""):
                    if e is not None and "." in name:
                        continue
                    for use_env in (True, False):
                        yield (name, f, c, e, use_env)


def put(d, name, v):
    cur = d
    for p in name.split(".")[:-1]:
        cur = cur.setdefault(p, {})
    cur[name.split(".")[-1]] = fresh(v)


def run_places(case, t):
    name, f, c, e, use_env = case
    t.state(repr(case))
    for form in ("%{}%", "<%{}%", "%{}%>", "%{}%%{}%", "a%%{}%", " %{}% "):
        for user in ("user", "n.user", "z.user"):
            for first in (True, False):
                d, ctx = {}, {}
                text = form.format(name, name)
                if first:
                    put(d, user, text)
                if f is not None:
                    put(d, name, f)
                if not first:
                    put(d, user, text)
                if c is not None:
                    put(ctx, name, c)
                put(ctx, "n.other", 1)
                env = {"ANOTHER.VARIABLE": "dots", "WITH-DASH": "dash"}
                if e is not None:
                    env[name] = e
                compare(t, d, ctx, env, use_env)


# --- what a placeholder is ------------------------------------------------------
def gen_texts(tier):
    n = 7 if thorough(tier) else 6
    for s in seqs("%az .", 0, n):
        if s.count("%") < 2 and len(s) > 4:
            continue  # nothing which could be a placeholder
        yield ("".join(s), False)
    for s in seqs("%a-_\u00e9", 0, 5 if thorough(tier) else 4):
        yield ("".join(s), False)
    for s in seqs(("%", "a", "$", "\n", "\\", "{", "}", "\\1", "%%", ":"), 0, 4 if thorough(tier) else 3):
        yield ("".join(s), False)
    for s in ("50%/75%", "%a/b%", "%/%", "%a,b%", "%a%/%a%", "(%a%)", "%a%,%a%;%a%", "from 5% to 7%", "%a:b%", "%a+%", "%(a)s", "%a$%", "%a#%a%", "%'a'%", "%[a]%", "%a@b%", "%a=1&b%", "%a*%", "%~%", "\t%a%\n", "%a\n%", "%%a%%", "%%%a%%%"):
        yield (s, False)


def run_texts(case, t):
    s, _ = case
    t.state(s)
    for parts in split(s):
        if isinstance(parts, tuple) and (parts[0].startswith("a.") or ".." in parts[0]):
            t.outcome("looking through a leaf")
            compare_fails(t, s)
            return
    compare(t, {"v": s}, {"a": "A\\1", "a-": "[]", "-": "m", "_": "%a%", "\u00e9": "e"}, {})
    compare(t, {"a": "\\g<0>\u00e9", "v": s, "n": {"v": s}}, {}, {})


def compare_fails(t, s):
    from vistautils.parameters import YAMLParametersLoader

    t.raises(IOError, lambda: YAMLParametersLoader().load_string(json.dumps({"a": "A", "v": s})), f"loading {s!r}")


# --- null values ---------------------------------------------------------------------
def gen_null(tier):
    names = ("a", "n.b", "n.c")
    vals = [None, "v"] + [f for x in names + ("n",) for f in (f"%{x}%", f"<%{x}%>") if f != "<%n%>"]
    for vs in itertools.product(vals, repeat=3):
        if None in vs:
            yield (names, vs)


def run_null(case, t):
    names, vs = case
    t.state(repr(case))
    for order in itertools.permutations(names):
        compare(t, build(order, dict(zip(names, vs))), {}, {"a": "environment"})


# --- shapes with many parameters --------------------------------------------------
def gen_long(tier):
    for n in (5, 20, 60) if not thorough(tier) else (5, 20, 60, 150):
        for order in ("forward", "backward", "interleaved"):
            for form in ("%{}%", "<%{}%>"):
                for end in ("v", "", 0, "%ctx%", "%ENVVAR%", "%gone%", "cycle", "cycle to the middle", "self"):
                    for how in ("string", "file"):
                        yield (n, order, form, end, how)


def run_long(case, t):
    n, order, form, end, how = case
    t.state(case)
    names = [f"p{i}" if i % 3 else f"n.p{i}" for i in range(n)]
    assigned = {}
    for i in range(n - 1):
        assigned[names[i]] = form.format(names[i + 1])
    assigned[names[-1]] = {"cycle": f"%{names[0]}%", "cycle to the middle": f"%{names[n // 2]}%", "self": f"%{names[-1]}%"}.get(end, end)
    seq = {"forward": names, "backward": names[::-1], "interleaved": names[::2] + names[1::2]}[order]
    compare(t, build(seq, assigned), {"ctx": "C"}, {"ENVVAR": "E"}, how=how)
    # fan in and fan out
    hub = {"hub": "".join(f"%{x}%" for x in names)}
    hub.update({x: "%ctx%" + str(i) for i, x in enumerate(names)})
    compare(t, build(seq + ["hub"], hub), {"ctx": "C"}, {}, how=how)
    compare(t, build(["hub"] + seq, hub), {"ctx": "C"}, {}, how=how)
    spokes = {x: f"%hub%{i}" for i, x in enumerate(names)}
    spokes["hub"] = end if isinstance(end, str) and not end.startswith(("cycle", "self")) else "hub"
    compare(t, build(["hub"] + seq, spokes), {"ctx": "C"}, {"ENVVAR": "E"}, how=how)
    compare(t, build(seq + ["hub"], spokes), {"ctx": "C"}, {"ENVVAR": "E"}, how=how)


SPACES = [
    Space("graphs", gen_graphs, run_graphs, lambda tier: "all assignments of 9 to 17 values to three parameters in 3 layouts, every order of definition" + (", and of 12 values to four parameters" if tier == "thorough" else "")),
    Space("places", gen_places, run_places, "every value of 11 kinds in the file, in the context and in the environment, or not, at 3 depths, in 6 forms, used from 3 places before and after"),
    Space("null", gen_null, run_null, "all assignments of 9 values to three parameters with a null among them, every order of definition"),
    Space("texts", gen_texts, run_texts, lambda tier: "all texts of up to %d characters over %%, a known name, an unknown one, blank and dot (longer than 4 with at least two %%); shorter ones over other alphabets; 23 with punctuation" % (7 if tier == "thorough" else 6)),
    Space("long", gen_long, run_long, "chains and fans of up to %s parameters in 3 orders, ending in 9 ways" % "60 (thorough 150)", tmp=True),
]
