#!/usr/bin/env python3
"""Measures the checks: makes small syntactic changes to scratch copies of /repo, keeps the ones that
still pass the test suite, and reports those that no check notices.

    tools/mutants.py FILE.py [-j JOBS] [-o OUT] [--only LINE-LINE] [--list]

This is only a means of finding gaps; it decides no property and no check uses it.
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
DESELECT = [
    "tests/scripts/test_downsample_key_value_store.py::test_downsample_key_value_store",
    "tests/test_key_value.py::test_from_path_mapping_char",
    "tests/test_range_map.py::TestRangeMap::test_pickling",
]
CHECKS = {
    "range.py": "C01 C07 C06 C02 C03 C04 C08 C05 C42",
    "span.py": "C08 C09 C10 C42",
    "annotated_text_utils.py": "C10 C42",
    "key_value.py": "C13 C14 C15 C36 C11 C12 C17 C42 C16 C35",
    "io_utils.py": "C33 C13 C14 C11 C19 C12 C42 C35",
    "parameters.py": "C27 C33 C28 C26 C22 C21 C20 C15 C42 C24 C25 C23",
    "_graph.py": "C23",
    "parameters_only_entrypoint.py": "C28",
    "logging_utils.py": "C28",
    "iter_utils.py": "C29",
    "iterutils.py": "C29",
    "collection_utils.py": "C29",
    "checkpoints.py": "C30",
    "memory_amount.py": "C31 C42",
    "preconditions.py": "C32",
    "misc_utils.py": "C32 C22",
    "class_utils.py": "C32",
    "attrutils.py": "C32 C34",
    "split_key_value_store.py": "C16 C17",
    "join_key_value_stores.py": "C17 C35",
    "directory_to_key_value_store.py": "C17 C35",
    "tar_gz_to_zip.py": "C18 C35",
    "downsample_key_value_store.py": "C36 C35",
    "text_at_offsets.py": "C33 C35",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not", "=="], ast.IsNot: ["is"]}


class Mutator:
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.starts = [0]
        for l in src.encode().split(b"\n"):
            self.starts.append(self.starts[-1] + len(l) + 1)
        self.b = src.encode()
        self.out = []
        self.tree = ast.parse(src)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, n, new, what):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append((n.lineno, what, a, b, new))

    def run(self):
        for fn in ast.walk(self.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for st in fn.body:
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    skip = {id(x) for r in ast.walk(st) if isinstance(r, ast.Raise) and r.exc for x in ast.walk(r.exc)}
                    for n in ast.walk(st):
                        if id(n) not in skip:
                            self.visit(n)
                for d in fn.args.defaults + [x for x in fn.args.kw_defaults if x]:
                    if isinstance(d, ast.Constant):
                        self.const(d)
        seen = set()
        res = []
        for m in self.out:
            k = m[2:]
            if k in seen:
                continue
            seen.add(k)
            new = self.b[: m[2]] + m[4].encode() + self.b[m[3]:]
            try:
                ast.parse(new.decode())
            except SyntaxError:
                continue
            res.append((m[0], m[1], self.b[m[2]:m[3]].decode(), m[4], new.decode()))
        res.sort(key=lambda x: x[0])
        return res

    def const(self, n):
        v = n.value
        if v is True:
            self.rep(n, "False", "const")
        elif v is False:
            self.rep(n, "True", "const")
        elif isinstance(v, int):
            self.rep(n, str(v + 1), "const")
            self.rep(n, f"({v - 1})", "const")
        elif isinstance(v, str) and v:
            self.rep(n, repr(v + "x") if len(v) > 1 else "'x'", "str")
        elif isinstance(v, str):
            self.rep(n, "'x'", "str")

    def visit(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                self.rep(n, f"{l} {o} {r}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.rep(n, "(" + op.join(self.text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [self.text(v) for j, v in enumerate(n.values) if j != i]
                self.rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.rep(n, f"({self.text(n.operand)})", "not")
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "*", ast.Div: "*"}.get(type(n.op))
            if sw and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                self.rep(n, f"{self.text(n.left)} {sw} {self.text(n.right)}", "arith")
        elif isinstance(n, (ast.If, ast.While)):
            self.rep(n.test, "True", "cond")
            self.rep(n.test, "False", "cond")
        elif isinstance(n, ast.IfExp):
            self.rep(n, "(" + self.text(n.body) + ")", "ifexp")
            self.rep(n, "(" + self.text(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                self.rep(i, "True", "compif")
        elif isinstance(n, ast.Constant):
            self.const(n)
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                self.rep(n, "pass", "delete yield")
            else:
                self.rep(n, "pass", "delete")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            self.rep(n, "pass", "delete assign")
        elif isinstance(n, ast.Raise):
            self.rep(n, "pass", "delete raise")
        elif isinstance(n, (ast.Continue,)):
            self.rep(n, "break", "continue")
            self.rep(n, "pass", "continue")
        elif isinstance(n, (ast.Break,)):
            self.rep(n, "pass", "break")
        elif isinstance(n, ast.Return) and n.value is not None:
            self.rep(n.value, "None", "return")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a = [self.text(x) for x in n.args] + [f"{q.arg}={self.text(q.value)}" if q.arg else "**" + self.text(q.value) for q in n.keywords if q is not k]
                    self.rep(n, f"{self.text(n.func)}({', '.join(a)})", "drop kw")
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                self.rep(n, f"{self.text(n.func)}({self.text(n.args[1])}, {self.text(n.args[0])})", "swap args")
            if isinstance(n.func, ast.Attribute) and not n.keywords and len(n.args) <= 1 and n.func.attr in ("strip", "lower", "upper", "copy", "rstrip", "lstrip", "resolve", "absolute", "items"):
                self.rep(n, self.text(n.func.value), "drop call")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "tuple", "set", "str", "reversed", "iter", "dict", "frozenset") and len(n.args) == 1:
                self.rep(n, self.text(n.args[0]), "drop wrap")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.rep(n, self.text(n.value), "drop slice")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            self.rep(n.type, "ZeroDivisionError", "except")
        elif isinstance(n, ast.With):
            pass


class Subtle(Mutator):
    """A second set of changes, of the kind a tired maintainer makes: truthiness for None tests, caches,
    forgotten contexts, swapped or repeated statements, looser string functions, wrong encodings."""

    METH = {"startswith": None, "endswith": None, "split": "rsplit", "rsplit": "split", "partition": "rpartition", "strip": "rstrip",
            "match": "search", "fullmatch": "match", "absolute": "resolve", "resolve": "absolute", "rglob": "glob", "glob": "rglob",
            "iterdir": None, "exists": "is_file", "is_file": "exists", "is_dir": "exists", "append": None, "rmdir": None,
            "isfile": "isreg", "namelist": None, "readlines": None, "isdigit": "isnumeric", "bisect": None, "bisect_left": "bisect_right",
            "bisect_right": "bisect_left", "open": None, "lower": "casefold", "splitlines": None}

    def const(self, n):
        if isinstance(n.value, str) and n.value.lower() in ("utf-8", "utf8"):
            for e in ("latin-1", "utf-8-sig", "ascii"):
                self.rep(n, repr(e), "encoding")

    def stmts(self, body):
        simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)
        for a, b in zip(body, body[1:]):
            if isinstance(a, simple + (ast.With, ast.For, ast.If)) and isinstance(b, simple + (ast.With, ast.For, ast.If)):
                if isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant):
                    continue
                x, y = self.span(a), self.span(b)
                mid = self.b[x[1]:y[0]]
                self.out.append((a.lineno, "swap statements", x[0], y[1], (self.b[y[0]:y[1]] + mid + self.b[x[0]:x[1]]).decode()))
        for a in body:
            if isinstance(a, (ast.Expr, ast.AugAssign)) and not (isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant)):
                self.rep(a, self.text(a) + "\n" + " " * a.col_offset + self.text(a), "twice")

    def loop(self, it):
        t = self.text(it)
        for new in (f"list({t})[1:]", f"list({t})[:-1]", f"list({t})[:5]", f"reversed(list({t}))", f"dict.fromkeys({t})", f"list({t})"):
            self.rep(it, new, "loop")

    def visit(self, n):
        if hasattr(n, "body") and isinstance(n.body, list):
            self.stmts(n.body)
        if hasattr(n, "orelse") and isinstance(n.orelse, list) and n.orelse:
            self.stmts(n.orelse)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            if r == "None":
                self.rep(n, f"(not {l})" if isinstance(n.ops[0], ast.Is) else f"bool({l})", "truthy")
            elif isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                self.rep(n, f"str({l}) {'==' if isinstance(n.ops[0], ast.Eq) else '!='} str({r})", "str eq")
        elif isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, (ast.Name, ast.Attribute, ast.Call)):
            self.rep(n.test, f"({self.text(n.test)}) is not None", "not none")
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2:
            l, r = map(self.text, n.values)
            self.rep(n, f"({l} if {l} is not None else {r})", "or none")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            self.rep(n.type, "Exception", "broad except")
        elif isinstance(n, ast.comprehension):
            self.loop(n.iter)
        elif isinstance(n, ast.For):
            self.loop(n.iter)
            last = n.body[-1]
            self.rep(last, self.text(last) + "\n" + " " * n.body[0].col_offset + "break", "break")
        elif isinstance(n, ast.Try) and n.finalbody:
            a, b = self.span(n.finalbody[0])[0], self.span(n.finalbody[-1])[1]
            self.out.append((n.finalbody[0].lineno, "no finally", a, b, "pass"))
        elif isinstance(n, ast.With):
            a, b = self.span(n.items[0].context_expr)[0], self.starts[n.body[0].lineno - 1]
            if len(n.items) == 1 and self.b[:a].rstrip().endswith(b"with"):
                v = n.items[0].optional_vars
                a = self.b[:a].rindex(b"with")
                e = self.text(n.items[0].context_expr)
                pad = " " * n.col_offset
                self.out.append((n.lineno, "no with", a, b, (f"{self.text(v)} = ({e})" if v else e) + "\n" + pad + "if True:\n"))
                if v:
                    self.out.append((n.lineno, "no exit", a, b, f"{self.text(v)} = ({e}).__enter__()\n" + pad + "if True:\n"))
        elif isinstance(n, ast.Return) and n.value is not None:
            t = self.text(n.value)
            if isinstance(n.value, ast.Call):
                for w in ("tuple", "iter"):
                    if isinstance(n.value.func, ast.Name) and n.value.func.id in ("list", "set", "sorted", "immutableset", "tuple"):
                        self.rep(n.value, f"{w}({t})", "rewrap")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[1], (ast.Name, ast.Attribute)):
                self.rep(n, f"(type({self.text(n.args[0])}) is {self.text(n.args[1])})", "exact type")
            if isinstance(f, ast.Name) and f.id in ("min", "max", "any", "all", "sorted"):
                new = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list"}[f.id]
                self.rep(f, new, "builtin")
                if f.id == "sorted":
                    self.rep(n, f"list(reversed({self.text(n)}))", "reversed")
            if isinstance(f, ast.Attribute) and f.attr in self.METH:
                o, args = self.text(f.value), [self.text(x) for x in n.args]
                kws = [f"{k.arg}={self.text(k.value)}" for k in n.keywords if k.arg]
                if f.attr in ("startswith", "endswith"):
                    self.rep(n, f"({args[0]} in {o})", "in")
                elif f.attr == "append":
                    self.rep(n, f"{o}.insert(0, {args[0]})", "prepend")
                elif f.attr in ("split", "rsplit"):
                    self.rep(n, f"{o}.{f.attr}({args[0]})" if len(args) == 2 else f"{o}.{f.attr}({args[0] if args else None}, 1)", "split")
                if self.METH[f.attr]:
                    self.rep(n, f"{o}.{self.METH[f.attr]}({', '.join(args + kws)})", "method")
                if f.attr == "strip" and not args:
                    self.rep(n, f"{o}.strip(' ')", "method")
            if (isinstance(f, ast.Name) and f.id in ("open", "TextIOWrapper")) or (isinstance(f, ast.Attribute) and f.attr in ("open", "decode", "encode", "TextIOWrapper", "read_text")):
                t = self.text(n)
                if "errors" not in t and t.endswith(")"):
                    for e in ("ignore", "replace"):
                        self.rep(n, t[:-1].rstrip().rstrip(",") + f"{', ' if n.args or n.keywords else ''}errors={e!r})", "errors")
        elif isinstance(n, ast.AugAssign):
            self.rep(n, f"{self.text(n.target)} = {self.text(n.value)}", "assign")
        elif isinstance(n, ast.Constant):
            self.const(n)

    def run(self):
        for fn in ast.walk(self.tree):
            if isinstance(fn, ast.FunctionDef):
                first = fn.decorator_list[0] if fn.decorator_list else None
                at = self.starts[(first or fn).lineno - 1]
                if not first or all(self.text(d) in ("overrides", "property", "abstractmethod", "staticmethod", "classmethod") for d in fn.decorator_list):
                    at = self.starts[fn.lineno - 1]
                    if not first or self.text(fn.decorator_list[-1]) == "overrides":
                        self.out.append((fn.lineno, "cache " + fn.name, at, at, " " * fn.col_offset + "@__import__('functools').lru_cache(maxsize=None)\n"))
                        if len(fn.args.args) > 1:
                            self.out.append((fn.lineno, "cache2 " + fn.name, at, at, " " * fn.col_offset + "@(lambda f, memo={}: lambda *a, **k: memo.setdefault((f, str(a[1:]), str(k)), None) or memo.update({(f, str(a[1:]), str(k)): f(*a, **k)}) or memo[(f, str(a[1:]), str(k))])\n"))
                self.stmts(fn.body)
        return super().run()


def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def sh(cmd, cwd, env, timeout, pre=None):
    try:
        p = subprocess.run(cmd, preexec_fn=pre, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", cwd], check=False)
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-o")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--checks")
    ap.add_argument("--subtle", action="store_true", help="use the second set of changes")
    a = ap.parse_args()
    rel = a.file
    src = open(os.path.join(REPO, rel), encoding="utf-8").read()
    muts = (Subtle if a.subtle else Mutator)(src).run()
    if a.only:
        lo, hi = map(int, a.only.split("-"))
        muts = [m for m in muts if lo <= m[0] <= hi]
    print(len(muts), "mutants of", rel, flush=True)
    if a.list:
        for m in muts:
            print(m[:4])
        return
    checks = (a.checks or CHECKS[os.path.basename(rel)]).split()
    root = tempfile.mkdtemp(prefix="mutants-")
    out = open(a.o or "/dev/stdout", "w")
    import queue

    slots = queue.Queue()
    for i in range(a.j):
        d = os.path.join(root, f"r{i}")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
        subprocess.run(["chmod", "-R", "a+rX", d])
        os.mkdir(d + ".tmp")
        os.chown(d + ".tmp", 65534, 65534)
        slots.put(d)
    os.chmod(root, 0o755)
    stats = {"tests": 0, "caught": 0, "missed": 0}

    def one(m):
        d = slots.get()
        try:
            env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONUTF8="1", LANG="C.UTF-8")
            p = os.path.join(d, rel)
            with open(p, "w", encoding="utf-8") as f:
                f.write(m[4])
            tmp = os.path.join(d + ".tmp", "t")
            env["TMPDIR"] = env["HOME"] = d + ".tmp"
            rc, o = sh([PY, "-W", "ignore", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--basetemp", tmp] + [x for t in DESELECT for x in ("--deselect", t)], d, env, 60, nobody)
            if rc != 0:
                stats["tests"] += 1
                return
            env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS="1")
            for c in checks:
                rc, o = sh([sys.executable, os.path.join(VERIF, "run.py"), c, "quick"], VERIF, env, 900)
                if rc == 1:
                    stats["caught"] += 1
                    print("caught", c, m[:4], file=out, flush=True)
                    return
                if rc != 0:
                    print("ODD", c, rc, m[:4], o[-300:], file=out, flush=True)
                    return
            stats["missed"] += 1
            print("MISSED", rel, m[:4], file=out, flush=True)
        finally:
            with open(os.path.join(d, rel), "w", encoding="utf-8") as f:
                f.write(src)
            slots.put(d)

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, muts))
    print(stats, file=out, flush=True)
    shutil.rmtree(root, ignore_errors=True)


main()
