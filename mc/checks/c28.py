"""C28 an entry point runs with the file's parameters overridden by the command line."""
import io
import itertools
import json
import logging
import os
import sys

from mc.core import Space, thorough, seqs
from mc import many
from mc.trees import Conflict, fresh, lookup, merge, nested, same

FILES = (
    {},
    {"a": "file", "n": {"x": 1, "y": [0]}},
    {"a": 0, "b": "%a2%", "a2": "text", "n": {"x": {"deep": False}}},
    {"logging": {"root_level": "ERROR"}, "a": "%n.x%", "n": {"x": ""}},
    {"new": "leaf", "n": {"m": {"x": 1}}, "z": True},
)
PAIRS = (("a", "one"), ("a", "two"), ("n.x", "7"), ("n.y", ""), ("new.deep", "true"), ("b", "%a%"), ("n.m.x", "x y"), ("logging.root_level", "DEBUG"))
LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10}


class Stop(BaseException):
    pass


def reset():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        h.close()
    root.setLevel(logging.WARNING)
    for name in list(logging.root.manager.loggerDict):
        logger = logging.getLogger(name)
        logger.disabled = False
        logger.setLevel(logging.NOTSET)
    logging.disable(logging.NOTSET)


class Run:
    """One run of the program: what main was given and what happened."""

    def __init__(self, argv, supplied=None, raises=None, program="program"):
        from vistautils.parameters_only_entrypoint import parameters_only_entry_point

        self.calls = []
        self.level = None
        self.error = None
        reset()
        saved = sys.argv, sys.stdout, sys.stderr
        sys.argv = ["prog.py"] + list(argv)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

        def main(params):
            self.calls.append(params)
            self.level = logging.getLogger().level
            for name, level in LEVELS.items():
                logging.getLogger("some.module").log(level, "message at %s!", name)
            if raises is not None:
                raise raises

        kw = {"parameters": supplied} if supplied is not None else {}
        if program is not None:
            kw["program_name"] = program
        try:
            self.result = parameters_only_entry_point(main, "what it is for", **kw)
        except BaseException as e:  # SystemExit included
            self.error = e
        finally:
            self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
            sys.argv, sys.stdout, sys.stderr = saved
            reset()


def overrides(pairs):
    """The dictionary of the overrides, or None when they contradict each other."""
    d = {}
    for name, value in pairs:
        parts = name.split(".")
        cur = d
        for p in parts[:-1]:
            cur = cur.setdefault(p, {})
            if not isinstance(cur, dict):
                return None
        if isinstance(cur.get(parts[-1]), dict):
            return None
        cur[parts[-1]] = value
    return d


def interpolated(d):
    from mc.checks import c23

    return c23.interpolated(d, {}, {})


def check_run(t, r, want, w):
    if isinstance(want, str):  # fails before main
        t.true(r.error is not None and isinstance(r.error, Exception), f"{w}: {want}, but {r.error!r}")
        t.eq(len(r.calls), 0, f"calls of main by {w}")
        t.outcome(want)
        return
    t.true(r.error is None, f"{w}: {r.error!r} {r.err!r}")
    t.eq(len(r.calls), 1, f"calls of main by {w}")
    t.true(same(nested(r.calls[0]), want), f"{w}: {nested(r.calls[0])!r}, not {want!r}")
    level = LEVELS[want.get("logging", {}).get("root_level", "INFO")]
    t.eq(r.level, level, f"the level of the root logger in {w}")
    for name, x in LEVELS.items():
        t.eq(r.out.count(f"message at {name}!"), 1 if x >= level else 0, f"messages at {name} printed by {w}: {r.out!r}")
    t.outcome("runs")


def gen_overrides(tier):
    n = 3
    for f in range(len(FILES)):
        for k in range(0, n + 1):
            pool = PAIRS if k < 3 or thorough(tier) else PAIRS[:6]
            for pairs in itertools.product(pool, repeat=k):
                for place in tuple(range(k + 1)) + ("supplied",):
                    if k == 3 and not thorough(tier) and place not in (0, 1, 3):
                        continue
                    yield (f, pairs, place)


def run_overrides(case, t):
    from vistautils.parameters import Parameters

    f, pairs, place = case
    content = fresh(FILES[f])
    d = overrides(pairs)
    if d is None:
        t.outcome("contradictory overrides")
        return
    t.state((f, pairs))
    supplied = Parameters.from_mapping(interpolated(content)) if place == "supplied" else None
    args = [a for name, value in pairs for a in ("-p", name, value)]
    if supplied is None:
        with open("f.params", "w", encoding="utf-8") as out:
            json.dump(content, out)
        args[3 * place : 3 * place] = ["f.params" if place % 2 else os.path.abspath("f.params")]
    try:
        want = merge(interpolated(content), d)
    except Conflict:
        want = "a leaf overridden by a namespace or the reverse"
    w = f"the program run with {args} on {content!r}"
    r = Run(args, supplied)
    check_run(t, r, want, w)
    if supplied is not None:
        t.true(same(nested(supplied), interpolated(content)), f"the supplied parameters after {w}")


def gen_environment(tier):
    for value in ("E", "", "7", "%a%"):
        for where in ("file", "override", "both"):
            for place in (0, 1):
                yield (value, where, place)


def run_environment(case, t):
    """The file is loaded as any other: the environment can be used in it."""
    value, where, place = case
    t.state(case)
    content = {"a": "%MC_VARIABLE%", "n": {"b": "<%MC_VARIABLE%>"}}
    if where != "override":
        content["c"] = 1
    pairs = [("n.c", "%MC_VARIABLE%")] if where != "file" else []
    with open("f.params", "w", encoding="utf-8") as out:
        json.dump(content, out)
    args = [a for name, v in pairs for a in ("-p", name, v)]
    args[3 * place if pairs else 0 : 0] = ["f.params"] if place == 0 or not pairs else []
    if "f.params" not in args:
        args.append("f.params")
    saved = dict(os.environ)
    os.environ["MC_VARIABLE"] = value
    try:
        r = Run(args)
    finally:
        os.environ.clear()
        os.environ.update(saved)
    want = merge({**content, "a": value, "n": {"b": f"<{value}>"}}, overrides(pairs))
    check_run(t, r, want, f"the program run with {args} on {content!r} in an environment with MC_VARIABLE={value!r}")


def gen_usage(tier):
    words = ("f.params", "-p", "a", "other")
    for args in seqs(words, 0, 5 if thorough(tier) else 4):
        for supplied in (False, True):
            yield (args, supplied)
    for args in (("-q", "f.params"), ("f.params", "--q"), ("--help",), ("-h", "f.params"), ("f.params", "-p", "a", "b", "-p"), ("f.params", "-x", "a", "b")):
        for supplied in (False, True):
            yield (args, supplied)


def parse(args, supplied):
    """(file or None, pairs) or None for a usage error; every -p takes exactly two words."""
    i, files, pairs = 0, [], []
    while i < len(args):
        if args[i] == "-p":
            two = args[i + 1 : i + 3]
            if len(two) < 2 or any(x.startswith("-") for x in two):
                return None
            pairs.append(two)
            i += 3
        elif args[i].startswith("-"):
            return None
        else:
            files.append(args[i])
            i += 1
    if len(files) != (0 if supplied else 1):
        return None
    return (files[0] if files else None), pairs


def run_usage(case, t):
    from vistautils.parameters import Parameters

    args, supplied = case
    t.state(case)
    with open("f.params", "w", encoding="utf-8") as out:
        json.dump({"x": 1}, out)
    parsed = parse(args, supplied)
    r = Run(args, Parameters.from_mapping({"x": 1}) if supplied else None)
    w = f"the program run with {args}" + (" and parameters supplied" if supplied else "")
    if parsed is None:
        t.true(isinstance(r.error, SystemExit), f"{w}: {r.error!r}")
        if not any("h" in a for a in args if a.startswith("-")):
            t.true(r.error.code not in (0, None), f"exit code of {w}")
            t.true("usage" in r.err and "program" in r.err, f"message of {w}: {r.err!r}")
        t.eq(len(r.calls), 0, f"calls of main by {w}")
        t.outcome("usage error")
        return
    f, pairs = parsed
    if f is not None and f != "f.params":
        check_run(t, r, "no such file", w)
        return
    d = overrides(pairs)
    if d is None:
        return
    check_run(t, r, merge({"x": 1}, d), w)


LOGGING = ("none",) + tuple(LEVELS) + ("info", "Debug", "", "LOUD", "20", "NOTSET", " INFO", "number", "list", "config", "config missing", "config directory", "config and level")


def gen_logging(tier):
    for what in LOGGING:
        for how in ("file", "supplied", "override"):
            for raises in (None, "ValueError", "Stop", "SystemExit"):
                for program in ("program", None):
                    yield (what, how, raises, program)


def run_logging(case, t):
    from vistautils.logging_utils import configure_logging_from
    from vistautils.parameters import Parameters

    what, how, raises, program = case
    t.state(case)
    with open("log.cfg", "w") as f:
        f.write("[loggers]\nkeys=root\n[handlers]\nkeys=\n[formatters]\nkeys=\n[logger_root]\nlevel=CRITICAL\nhandlers=\n")
    section = {
        "none": {}, "number": {"root_level": 20}, "list": {"root_level": ["INFO"]}, "config": {"config_file": os.path.abspath("log.cfg")}, "config missing": {"config_file": "gone.cfg"},
        "config directory": {"config_file": "."}, "config and level": {"config_file": "log.cfg", "root_level": "DEBUG"},
    }.get(what, {"root_level": what})
    d = {"v": [1], "logging": section} if section else {"v": [1]}
    if how == "override" and (what in ("number", "list") or not section):
        return
    args, supplied = [], None
    if how == "file":
        with open("f.params", "w") as f:
            json.dump(d, f)
        args = ["f.params"]
    elif how == "supplied":
        supplied = Parameters.from_mapping(d)
    else:
        with open("f.params", "w") as f:
            json.dump({"v": [1], "logging": {"root_level": "ERROR"}} if "root_level" in section and "config_file" not in section else {"v": [1]}, f)
        args = ["f.params"] + [a for k, v in section.items() for a in ("-p", "logging." + k, v)]
    exc = {"ValueError": ValueError("from main"), "Stop": Stop(), "SystemExit": SystemExit(3)}.get(raises)
    w = f"the program run with {args} on {d!r}"
    import __main__

    had = getattr(__main__, "__file__", None)
    __main__.__file__ = "/somewhere/script_name.py"
    try:
        r = Run(args, supplied, raises=exc, program=program)
    finally:
        if had is None:
            del __main__.__file__
        else:
            __main__.__file__ = had
    good = what == "none" or what in LEVELS or what in ("config", "config and level")
    if not good:
        check_run(t, r, "an invalid logging level or file", w)
        return
    t.eq(len(r.calls), 1, f"calls of main by {w}")
    t.is_(r.error, exc, f"what {w} ends with, where main raises {exc!r}")
    t.true(same(nested(r.calls[0]), d), f"{w}: {nested(r.calls[0])!r}")
    level = 50 if what.startswith("config") else LEVELS.get(what, 20)
    t.eq(r.level, level, f"the level of the root logger in {w}")
    if not what.startswith("config"):
        for name, x in LEVELS.items():
            t.eq(r.out.count(f"message at {name}!"), 1 if x >= level else 0, f"messages at {name} printed by {w}")
    # the same configuration without the entry point
    reset()
    saved, sys.stdout = sys.stdout, io.StringIO()
    try:
        configure_logging_from(Parameters.from_mapping(d))
        t.eq(logging.getLogger().level, level, f"the level of the root logger configured from {d!r}")
    finally:
        sys.stdout = saved
        reset()
    t.outcome("configured")


CFG = """[loggers]
keys=root%(more)s
[handlers]
keys=h
[formatters]
keys=f
[logger_root]
level=%(level)s
handlers=h
%(section)s[handler_h]
class=%(handler)s
level=NOTSET
formatter=f
args=%(args)s
[formatter_f]
format=%%(name)s:%%(levelname)s:%%(message)s
"""
NAMED = "[logger_named]\nlevel=%s\nhandlers=\nqualname=mc.existing.named\n"
EARLY = ("mc.existing", "mc.existing.named", "mc.existing.named.child")


def gen_config(tier):
    for level in LEVELS:
        for named in ("", "DEBUG", "CRITICAL"):
            for to in ("file", "stdout"):
                for how in ("file", "supplied", "override", "configure"):
                    for log_params in (False, True) if how == "configure" else (False,):
                        yield (level, named, to, how, log_params)


def run_config(case, t):
    """A logging configuration file: it says what is logged, by loggers made before and after it was read."""
    from vistautils.logging_utils import configure_logging_from
    from vistautils.parameters import Parameters
    from vistautils.parameters_only_entrypoint import parameters_only_entry_point

    level, named, to, how, log_params = case
    t.state(case)
    with open("log.cfg", "w") as f:
        f.write(CFG % {"level": level, "more": ",named" if named else "", "section": NAMED % named if named else "",
                       "handler": "FileHandler" if to == "file" else "StreamHandler", "args": "('out.log', 'w')" if to == "file" else "(sys.stdout,)"})
    d = {"v": "token-of-the-parameters", "logging": {"config_file": os.path.abspath("log.cfg")}}
    params = Parameters.from_mapping(d)
    reset()
    early = {n: logging.getLogger(n) for n in EARLY}
    late = f"mc.late.{level}"
    calls = []

    def main(p):
        calls.append(p)
        for n in EARLY + (late,):
            for name, x in LEVELS.items():
                early.get(n, logging.getLogger(n)).log(x, "message at %s of %s!", name, n)

    saved = sys.argv, sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        if how == "configure":
            configure_logging_from(params, log_params=log_params)
            main(params)
        else:
            with open("f.params", "w") as f:
                json.dump(d if how == "file" else {"v": d["v"]}, f)
            sys.argv = ["x"] + (["f.params"] if how != "supplied" else []) + (["-p", "logging.config_file", d["logging"]["config_file"]] if how == "override" else [])
            parameters_only_entry_point(main, program_name="x", **({"parameters": params} if how == "supplied" else {}))
    finally:
        out = sys.stdout.getvalue()
        sys.argv, sys.stdout, sys.stderr = saved
        reset()
    w = f"the program with this logging configuration file, given by '{how}': {open('log.cfg').read()!r}"
    t.eq(len(calls), 1, f"calls of main by {w}")
    if to == "file":
        t.true("message" not in out, f"{w} printed {out!r}")
        with open("out.log") as f:
            out = f.read()
    for n in EARLY + (late,):
        least = LEVELS[named] if named and n.startswith("mc.existing.named") else LEVELS[level]
        for name, x in LEVELS.items():
            k = out.count(f"message at {name} of {n}!")
            t.eq(k, 1 if x >= least else 0, f"messages at {name} of a logger made {'before' if n in EARLY else 'afterwards'} in {w}, all of it being {out!r}")
    if how != "configure" or log_params:
        t.eq("token-of-the-parameters" in out, LEVELS[level] <= logging.INFO, f"whether the parameters are logged by {w}, all of it being {out!r}")
    t.outcome("configured from a file")


SPACES = [
    Space("overrides", gen_overrides, run_overrides, "5 files, or their parameters supplied by the program, x all sequences of up to 3 of 8 overrides (quick: 6 for 3) x every place of the file among them", tmp=True),
    Space("environment", gen_environment, run_environment, "4 values of an environment variable x used in the file, in an override or both", tmp=True),
    Space("usage", gen_usage, run_usage, lambda tier: "all lists of up to %d arguments over 4 words, with and without supplied parameters" % (5 if tier == "thorough" else 4), tmp=True),
    Space("logging", gen_logging, run_logging, "%d logging configurations x 3 ways of giving them x 4 ways main can end" % len(LOGGING), tmp=True),
    Space("logging files", gen_config, run_config, "logging configuration files with 7 levels x a logger of its own with 2 levels or none x printing or writing to a file x 4 ways of giving them, for loggers made before and after", tmp=True),
]

SPACES += many.BY_CHECK["C28"]
