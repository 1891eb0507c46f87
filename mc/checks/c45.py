"""C45 calls leave the process as they found it."""
import builtins
import contextlib
import copy
import copyreg
import csv
import decimal
import faulthandler
import gc
import importlib
import io
import locale
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings
from pathlib import Path

import yaml

from mc.core import Space, Trial, thorough
from mc import faults, jobs
from mc.checks import c35, c37, c41
from mc.jobs import P

STATES = ("plain", "odd")

# --- the process ------------------------------------------------------------------------
SIGNALS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]
LIMITS = [getattr(resource, n) for n in dir(resource) if n.startswith("RLIMIT_")]
YAML = sorted({c for n in dir(yaml) if isinstance(getattr(yaml, n), type) for c in getattr(yaml, n).__mro__ if c.__module__.startswith("yaml.")}, key=lambda c: (c.__module__, c.__name__))


def _own(module, names):
    m = importlib.import_module(module)
    return {f"{module}.{n}": getattr(m, n, None) for n in names}


def loggers():
    """The loggers there are, without those which are only made on asking."""
    out = {"": logging.getLogger()}
    for n, x in logging.root.manager.loggerDict.items():
        if isinstance(x, logging.Logger):
            out[n] = x
    return out


def _logger(x):
    return (x.level, list(x.handlers), list(x.filters), x.disabled, x.propagate, [(h.level, h.formatter, list(h.filters)) for h in x.handlers])


NEW_LOGGER = (logging.NOTSET, [], [], False, True, [])


def children():
    try:
        os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
    except ChildProcessError:
        return "none"
    return "some"


def listing(d):
    out = {}
    for n in ("cwd", "home", "tmp"):
        out[n] = jobs.tree(d / n)
    return out


def picture(d):
    mask = os.umask(0o077)
    os.umask(mask)
    try:
        cwd = os.getcwd()
    except OSError as e:
        cwd = str(e)
    return {
        "working directory": cwd,
        "environment": (id(os.environ), dict(os.environ)),
        "umask": mask,
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": (time.tzname, time.timezone, time.altzone),
        "random numbers": random.getstate(),
        "warning filters": (list(warnings.filters), id(warnings.showwarning), id(warnings.formatwarning)),
        "loggers": {n: _logger(x) for n, x in loggers().items() if n == "" or _logger(x) != NEW_LOGGER},
        "logging": (logging.root.manager.disable, id(logging.getLoggerClass()), logging.getLogRecordFactory(), logging.raiseExceptions, id(logging.lastResort),
                    {n: logging.getLevelName(n) for n in range(0, 60, 10)}),
        "signal handlers": {s: signal.getsignal(s) for s in SIGNALS},
        "blocked signals": signal.pthread_sigmask(signal.SIG_BLOCK, []),
        "alarm": signal.getitimer(signal.ITIMER_REAL)[1],
        "resource limits": [resource.getrlimit(x) for x in LIMITS],
        "interpreter settings": (sys.getrecursionlimit(), sys.getswitchinterval(), sys.dont_write_bytecode, sys.get_int_max_str_digits(), faulthandler.is_enabled()),
        "hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook),
        "arguments of the program": list(sys.argv),
        "module search": (list(sys.path), list(sys.path_hooks), list(sys.meta_path)),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), list(gc.callbacks)),
        "threads": [x.name for x in threading.enumerate()],
        "child processes": children(),
        "decimal context": (str(decimal.getcontext()), str(decimal.DefaultContext)),
        "csv settings": (csv.field_size_limit(), csv.list_dialects()),
        "default socket timeout": socket.getdefaulttimeout(),
        "YAML": {(c.__module__, c.__name__, n): copy.copy(v) if isinstance(v, (dict, list, set)) else v for c in YAML for n, v in vars(c).items() if not n.startswith("__")},
        "pickling": (dict(copyreg.dispatch_table), dict(copyreg._extension_registry)),
        "built-in functions": {n: id(getattr(builtins, n)) for n in dir(builtins) if n != "_"},
        "library functions": {k: id(v) for k, v in {
            **_own("os", ("open", "replace", "rename", "remove", "listdir", "environ", "path", "fspath", "getcwd", "sep")),
            **_own("io", ("open", "TextIOWrapper", "BytesIO", "StringIO", "DEFAULT_BUFFER_SIZE", "text_encoding")),
            **_own("zipfile", ("ZipFile", "ZipInfo", "ZIP_STORED", "ZIP64_LIMIT")), **_own("tarfile", ("TarFile", "TarInfo", "ENCODING", "open")),
            **_own("gzip", ("GzipFile", "open")), **_own("pathlib", ("Path", "PurePath", "PosixPath")), **_own("pickle", ("load", "loads", "dump", "Unpickler")),
            **_own("json", ("dumps", "loads")), **_own("yaml", ("load", "safe_load", "dump", "SafeLoader", "SafeDumper")), **_own("shutil", ("rmtree", "copyfileobj", "copyfile")),
            **_own("tempfile", ("template", "NamedTemporaryFile")), **_own("random", ("random", "shuffle", "seed")), **_own("time", ("time", "sleep")),
        }.items()},
        "files nobody asked for": listing(d),
        "imported modules": {n: id(m) for n, m in list(sys.modules.items())},
    }


GROWS = ("imported modules",)


def compare(t, before, after, what, logs, tidy=True):
    """logs: whether the call is there to configure logging; tidy: whether it could remove its temporary files."""
    t.eq(jobs.ALTERED, [], f"arguments and streams changed by {what}")
    for k, old in before.items():
        if logs and k in ("loggers", "logging"):
            continue
        new = after[k]
        if k in GROWS:
            new = {n: new.get(n) for n in old}
        t.ops += 1
        if k == "files nobody asked for" and not tidy:
            old, new = ({n: x[n] for n in x if n != "tmp"} for x in (old, new))
        if new != old:
            t.fail(f"{k} after {what}: {_difference(old, new)}")


def _difference(old, new):
    if isinstance(old, dict):
        k = [k for k in {**old, **new} if old.get(k, "absent") != new.get(k, "absent")][0]
        return f"{k!r} was {_short(old.get(k, 'absent'))}, is {_short(new.get(k, 'absent'))}"
    if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new):
        i = [i for i in range(len(old)) if old[i] != new[i]][0]
        return _difference(old[i], new[i])
    return f"was {_short(old)}, is {_short(new)}"


def _short(x):
    x = repr(x)
    return x if len(x) < 300 else x[:150] + " ... " + x[-150:]


def _handler(*_):
    pass


@contextlib.contextmanager
def process(state, d):
    """The process in a state, put back afterwards whatever happens."""
    del jobs.ALTERED[:]
    for n in ("cwd", "home", "tmp"):
        (d / n).mkdir()
    (d / "cwd" / "here").write_text("here")
    saved = picture(d)
    tz = os.environ.get("TZ")
    temp = tempfile.tempdir
    handlers, filters = list(logging.root.handlers), list(warnings.filters)
    level = logging.root.level
    streams = sys.stdin, sys.stdout, sys.stderr
    decimals = decimal.getcontext().copy()
    hooks = {n: getattr(sys, n) for n in ("excepthook", "displayhook", "unraisablehook")}
    try:
        os.environ.update(HOME=str(d / "home"), TMPDIR=str(d / "tmp"))
        tempfile.tempdir = str(d / "tmp")
        os.chdir(d / "cwd")
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(""), io.StringIO(), io.StringIO()
        for h in handlers:
            logging.root.removeHandler(h)
        if state == "odd":
            os.umask(0o027)
            os.environ.update(TZ="XYZ-5:30", ODD="x", A="other", **{"a.b": "dotted", "n": ""})
            time.tzset()
            locale.setlocale(locale.LC_CTYPE, "C.utf8")
            random.seed(7)
            random.gauss(0, 1)  # which keeps the second of two numbers
            warnings.resetwarnings()
            warnings.filterwarnings("ignore", "nothing of this kind", UserWarning, "nowhere", 5)
            warnings.simplefilter("ignore", DeprecationWarning)
            logging.root.setLevel(logging.ERROR)
            logging.root.addHandler(logging.NullHandler(logging.INFO))
            logging.disable(5)
            signal.signal(signal.SIGTERM, _handler)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            sys.setrecursionlimit(2900)
            sys.setswitchinterval(0.01)
            sys.argv = ["prog", "-p", "a", "b"]
            gc.disable()
            gc.set_threshold(100, 5, 5)
            decimal.getcontext().prec = 9
            csv.field_size_limit(999)
            socket.setdefaulttimeout(77)
        yield
    finally:
        sys.stdin, sys.stdout, sys.stderr = streams
        for k in list(os.environ):
            if k not in saved["environment"][1]:
                del os.environ[k]
        os.environ.update(saved["environment"][1])
        if tz is not None:
            os.environ["TZ"] = tz
        time.tzset()
        tempfile.tempdir = temp
        os.umask(saved["umask"])
        locale.setlocale(locale.LC_ALL, saved["locale"])
        random.setstate(saved["random numbers"])
        warnings.filters[:] = filters
        warnings._filters_mutated()
        for n, x in loggers().items():
            if n and n not in saved["loggers"]:
                x.handlers[:], x.filters[:], x.disabled, x.propagate = [], [], False, True
                x.setLevel(logging.NOTSET)
        logging.root.handlers[:] = handlers
        logging.root.setLevel(level)
        logging.disable(saved["logging"][0])
        for s, h in saved["signal handlers"].items():
            if h is not None and signal.getsignal(s) != h:
                signal.signal(s, h)
        signal.pthread_sigmask(signal.SIG_SETMASK, saved["blocked signals"])
        sys.setrecursionlimit(saved["interpreter settings"][0])
        sys.setswitchinterval(saved["interpreter settings"][1])
        sys.argv = saved["arguments of the program"]
        sys.path[:] = saved["module search"][0]
        for n, h in hooks.items():
            setattr(sys, n, h)
        (gc.enable if saved["garbage collector"][0] else gc.disable)()
        gc.set_threshold(*saved["garbage collector"][1])
        decimal.setcontext(decimals)
        csv.field_size_limit(saved["csv settings"][0])
        socket.setdefaulttimeout(saved["default socket timeout"])
        with contextlib.suppress(OSError):
            os.chdir(saved["working directory"])


@contextlib.contextmanager
def watched(t, state, d, what, logs=False, prints=True):
    """Within it the process is to be left as it was found."""
    with process(state, d):
        before = picture(d)
        yield
        after = picture(d)
        printed = sys.stdout.getvalue()
        compare(t, before, after, f"{what}, in a process in the {state} state", logs)
        if not prints:
            t.eq(printed, "", f"what {what} wrote to the standard output")


# --- calls ------------------------------------------------------------------------------
def others(d):
    """name -> (function, fails, is there to configure logging)"""
    from vistautils import parameters_only_entrypoint as entry
    from vistautils.logging_utils import configure_logging_from
    from vistautils.misc_utils import eval_in_context_of_modules
    from vistautils.parameters import Parameters, YAMLParametersLoader
    from vistautils.memory_amount import MemoryAmount

    (d / "e.params").write_text("a: '%ODD%'\nhome: '%HOME%/x'\n")
    (d / "o.params").write_text("a: 1\nlogging:\n  root_level: DEBUG\n")

    def run(main, *args, **kw):
        def f():
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), jobs.arguments(*args):
                entry.parameters_only_entry_point(main, program_name="x", **kw)

        return f

    def broken(_):
        raise ValueError("broken")

    def random_main(_):
        return random.getstate()

    return {
        "entry point": (run(random_main, d / "o.params", "-p", "a.b", "c"), False, True),
        "entry point with parameters": (run(random_main, "-p", "a", "c", parameters=P({"a": "b"})), False, True),
        "entry point which fails": (run(broken, d / "o.params"), True, True),
        "entry point without a file": (run(random_main, d / "nowhere"), True, False),
        "entry point used wrongly": (run(random_main, "-q"), True, False),
        "configure logging": (lambda: configure_logging_from(P({"logging": {"root_level": "WARN"}})), False, True),
        "configure logging wrongly": (lambda: configure_logging_from(P({"logging": {"root_level": "x"}})), True, False),
        "parameters from the environment": (lambda: YAMLParametersLoader().load(d / "e.params"), None, False),
        "parameters from a string": (lambda: YAMLParametersLoader().load_string("a: [1, 2]\nb: !!set {x, y}\n", includes_are_relative_to=d), None, False),
        "text with a tag": (lambda: YAMLParametersLoader().load_string("a: !!python/object/apply:os.chdir ['/']\n"), True, False),
        "pairs": (lambda: Parameters.from_key_value_pairs([("a.b", 1), ("c", "x")]), False, False),
        "unified": (lambda: P({"a": {"b": 1}}).unify(P({"a": {"c": 2}})), False, False),
        "defaults": (lambda: [P({}).string("a", default="x"), P({}).integer("a", default=1), P({}).boolean("a", default=True)], False, False),
        "old defaults": (lambda: [P({}).optional_string("a"), P({}).optional_integer("a"), P({}).optional_string("a", default="x"), P({}).optional_boolean("a", default=True)], None, False),
        "refused": (lambda: P({"a": 1}).string("a"), True, False),
        "list of paths": (lambda: P({"p": ["a", "b"]}).path_list_from_file("p"), None, False),
        "evaluated": (lambda: P({"a": "os.path.join('a', 'b')", "import": ["os"]}).evaluate("a"), None, False),
        "evaluated with modules": (lambda: eval_in_context_of_modules("math.pi", {}, context_modules=["math"]), None, False),
        "object": (lambda: P({"o": {"factory": "collections.Counter", "import": ["collections"]}}).object_from_parameters("o"), None, False),
        "object with an absent module": (lambda: P({"o": {"factory": "x.y", "import": ["x_absent"]}}).object_from_parameters("o"), True, False),
        "amount of memory": (lambda: [MemoryAmount.from_str("12 GB"), str(MemoryAmount.from_str("1024k"))], None, False),
    }


OTHERS = (
    "entry point", "entry point with parameters", "entry point which fails", "entry point without a file", "entry point used wrongly", "configure logging",
    "configure logging wrongly", "parameters from the environment", "parameters from a string", "text with a tag", "pairs", "unified", "defaults", "old defaults", "refused",
    "list of paths", "evaluated", "evaluated with modules", "object", "object with an absent module", "amount of memory",
)


def gen_calls(tier):
    times = (1, 2) if not thorough(tier) else (1, 2, 3)
    for state in STATES:
        for n in times:
            for name in OTHERS:
                yield ("others", name, state, n)
            for name in c35.CALLS:
                yield ("calls", name, state, n)
            for name in jobs.jobs():
                yield ("jobs", name, state, n)
            for name in c41.unreadable():
                yield ("reads", name, state, n)


def run_calls(case, t):
    family, name, state, times = case
    t.state(case)
    d = Path(t.dir)
    work = [d / f"work{i}" for i in range(times)]
    fns = []
    logs = False
    prints = family == "others"
    for w in work:
        if family == "jobs":
            jobs.prepared(w, jobs.jobs()[name][0])
            fns.append(lambda w=w: jobs.jobs()[name][1](w)())
        else:
            w.mkdir()
            if family == "calls":
                fns.append(c35.calls(w, t)[name][0])
            elif family == "reads":
                prepare, read = c41.unreadable()[name]
                prepare(w)
                fns.append(lambda w=w, read=read: read(w))
            else:
                fn, _, logs = others(w)[name]
                fns.append(fn)
    with watched(t, state, d, f"the call '{name}'", logs, prints):
        for fn in fns:
            try:
                fn()
            except (Exception, SystemExit) as e:
                t.outcome("raised " + type(e).__name__)
            else:
                t.outcome("returned")


# --- shared values ----------------------------------------------------------------------
def gen_values(tier):
    for name in c37.SCENARIOS:
        for state in STATES:
            yield (name, state)


def run_values(case, t):
    name, state = case
    make, ops = c37.SCENARIOS[name]
    d = Path(t.dir)
    value, close = make(str(d))
    try:
        with process(state, d):
            for op, fn in ops.items():
                t.state((name, state, op))
                before = picture(d)
                for _ in range(2):
                    try:
                        c37.freeze(fn(value))
                    except Exception as e:
                        t.outcome("raised " + type(e).__name__)
                    else:
                        t.outcome("returned")
                compare(t, before, picture(d), f"'{op}' on a {name}, in a process in the {state} state", False)
    finally:
        if close:
            close()
    d2 = d / "again"
    d2.mkdir()
    with watched(t, state, d2, f"making and closing a {name}", prints=False):
        value, close = make(str(d2))
        if close:
            close()


# --- faults -----------------------------------------------------------------------------
PARTS = 4
# what removing files needs: where it fails, temporary files may remain
REMOVING = ("rmdir", "unlink", "remove", "listdir", "scandir", "os.open")


def gen_faults(tier):
    for mode in ("stays", "once"):
        for part in range(PARTS):
            for name in jobs.jobs():
                yield ("jobs", name, mode, part)
            for name in c41.unreadable():
                yield ("reads", name, mode, part)


def run_faults(case, t):
    family, name, mode, part = case
    base = Path(t.dir)
    if family == "jobs":
        job = jobs.jobs()[name]
        kind = faults.WRITING
        prepare = lambda d: jobs.prepared(d, job[0])
        call = lambda d: job[1](d)()
    else:
        prep, call = c41.unreadable()[name]
        kind = faults.READING

        def prepare(d):
            d.mkdir()
            prep(d)

    prepare(base / "counted")
    with faults.Disk(kind, buffer=16) as disk:
        try:
            call(base / "counted")
        except Exception:
            pass
    n = disk.count
    for at in range(part, n, PARTS):
        t.state((name, mode, at))
        prepare(base / str(at))
    with process(STATES[part % 2], base):
        for at in range(part, n, PARTS):
            before = picture(base)
            with faults.Disk(kind, at, mode, buffer=16) as disk:
                try:
                    call(base / str(at))
                except (Exception, SystemExit) as e:
                    t.outcome("raised " + type(e).__name__)
                else:
                    t.outcome("returned")
            compare(t, before, picture(base), f"the call '{name}', {'effect' if family == 'jobs' else 'access'} {at} of {n} of which failed", False, tidy=mode == "once" and not disk.failed & set(REMOVING))
            for x in os.listdir(base / "tmp"):
                shutil.rmtree(base / "tmp" / x)


# --- histories --------------------------------------------------------------------------
# whole spaces of other checks, looked at from here: only what becomes of the process counts
HISTORIES = (
    ("c01", "construct-and-probe"), ("c02", "pairs"), ("c08", "pairs"), ("c09", "general index"), ("c10", "whole texts"), ("c11", "session histories"),
    ("c13", "sessions"), ("c14", "formats"), ("c15", "calls"), ("c16", "even slices"), ("c16", "explicit splits"), ("c17", "joins"), ("c17", "directories"), ("c18", "archives"),
    ("c19", "texts"), ("c20", "trees"), ("c20", "pairs"), ("c21", "pairs"), ("c22", "objects"), ("c22", "evaluate"), ("c23", "graphs"), ("c23", "places"), ("c24", "graphs"), ("c24", "paths"),
    ("c25", "values"), ("c25", "odd"), ("c26", "single"), ("c26", "sequences"), ("c27", "strings"), ("c29", "failing"), ("c30", "histories"), ("c31", "strings"), ("c32", "values"),
    ("c33", "path lists"), ("c34", "immutable collections"), ("c35", "sources"), ("c35", "stores"), ("c35", "store sinks"), ("c36", "sizes"), ("c43", "written stores"), ("c43", "scripts"), ("c43", "notations"),
)
SHARES = 8
# what the harnesses of those spaces themselves set
SET_BY_HARNESS = {"c16": "random numbers", "c36": "random numbers", "c18": "working directory", "c27": "logging"}


def gen_histories(tier):
    for share in range(SHARES):
        for module, name in HISTORIES:
            yield (module, name, share)


def run_histories(case, t):
    module, name, share = case
    space = {s.name: s for s in importlib.import_module(f"mc.checks.{module}").SPACES}[name]
    d = Path(t.dir)
    (d / "trial").mkdir()
    inner = Trial(str(d / "trial"))
    with process("plain", d):
        locale.setlocale(locale.LC_CTYPE, "C")
        before = None
        for i, c in enumerate(space.gen("quick")):
            if i % SHARES != share:
                continue
            if space.tmp:
                inner.fresh_dir()
                os.chdir(inner.dir)
            if before is None:
                before = picture(d)
            before["working directory"] = os.getcwd()
            before.pop(SET_BY_HARNESS.get(module), None)
            try:
                space.run(c, inner)
            except (Exception, SystemExit) as e:  # not what is looked at here
                t.outcome("the case failed")
            else:
                t.outcome("the case passed")
            compare(t, before, picture(d), f"{c!r} of the space '{name}' of {module}", False)
            if space.tmp:
                inner.drop_dir()
    t.state(case)


SPACES = [
    Space("calls", gen_calls, run_calls, lambda tier: "186 calls, succeeding or failing, once and twice%s, in processes in 2 states" % ("" if tier == "quick" else " and three times"), tmp=True),
    Space("values", gen_values, run_values, "every operation on 30 kinds of value, in processes in 2 states", tmp=True),
    Space("disks fail", gen_faults, run_faults, "50 calls that write and 56 that read x every byte written or read and every call that creates, changes, removes, opens or lists failing, once or from then on", tmp=True),
    Space("histories", gen_histories, run_histories, "every case of %d spaces of other checks" % len(HISTORIES), tmp=True),
]
