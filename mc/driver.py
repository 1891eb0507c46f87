"""Parent side of a check: contains the workers, collects what they explored, reports.

The parent never imports the code under test.  It creates a scratch directory, starts
worker processes that run as an unprivileged user with nothing of their own but that
directory (so that code under test which deletes or overwrites files can reach nothing
real), and merges their results.
"""
import hashlib
import json
import os
import pwd
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.txt")
NOBODY = 65534
WALL_LIMIT = {"quick": 600, "thorough": 6 * 3600, "replay": 300}


def _scratch():
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 256 * 1024 * 1024:
                d = tempfile.mkdtemp(prefix="mc-", dir=base)
                os.chmod(d, 0o755)
                return d
        except OSError:
            continue
    d = tempfile.mkdtemp(prefix="mc-")
    os.chmod(d, 0o755)
    return d


def _can_drop():
    if os.getuid() != 0:
        return False
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def _readable_as_nobody(path):
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            for root, _, files in os.walk(path, onerror=_raise):
                if "__pycache__" in root or "/.git" in root:
                    continue
                for f in files:
                    if f.endswith(".py"):
                        with open(os.path.join(root, f), "rb"):
                            pass
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def _raise(e):
    raise e


def known_findings(prop):
    """Lines  'finding: property=<id> space=<space> case=<repr> what=<text>'."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith(f"finding: property={prop} space="):
                    rest = line.split(" space=", 1)[1]
                    space, rest = rest.split(" case=", 1)
                    case, what = rest.split(" what=", 1)
                    out.append((space, case, what))
    return out


def main(argv):
    if len(argv) < 1:
        print(__doc__)
        return 1
    prop = argv[0]
    if prop == "--self-test":
        code = (f"import sys; sys.path.insert(0, {VERIF!r}); sys.path.insert(0, {REPO!r}); sys.dont_write_bytecode = True\n"
                "import vistautils, mc.core, mc.worker, mc.registry, importlib\n"
                "[importlib.import_module('mc.checks.' + p.lower()) for p in mc.registry.META]\n"
                "print(len(mc.registry.META), 'checks can be loaded')")
        return subprocess.call([PYTHON, "-W", "ignore", "-c", code])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    replay = argv[2] if tier == "replay" else None
    if tier not in ("quick", "thorough", "replay"):
        tier = "quick"
    t0 = time.time()
    scratch = _scratch()
    try:
        return _main(prop, tier, replay, scratch, t0)
    finally:
        subprocess.call(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, replay, scratch, t0):
    drop = _can_drop()
    repo, verif = REPO, VERIF
    if drop and not _readable_as_nobody(os.path.join(repo, "vistautils")):
        repo = os.path.join(scratch, "repo")
        shutil.copytree(os.path.join(REPO, "vistautils"), os.path.join(repo, "vistautils"))
        subprocess.call(["chmod", "-R", "a+rX", repo])
    if drop and not _readable_as_nobody(os.path.join(verif, "mc")):
        verif = os.path.join(scratch, "verif")
        shutil.copytree(os.path.join(VERIF, "mc"), os.path.join(verif, "mc"))
        subprocess.call(["chmod", "-R", "a+rX", verif])

    nshards = 1 if replay else int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 1))
    findings = [] if replay else known_findings(prop)
    procs = []
    for shard in range(nshards):
        d = os.path.join(scratch, f"w{shard}")
        for sub in ("", "home", "tmp", "pyc", "cwd"):
            os.mkdir(os.path.join(d, sub))
        if replay:
            shutil.copy(replay, os.path.join(d, "replay.json"))
        with open(os.path.join(d, "findings.json"), "w") as f:
            json.dump([[s, c] for s, c, _ in findings], f)
        if drop:
            for root, dirs, files in os.walk(d):
                os.chown(root, NOBODY, NOBODY)
                for x in files:
                    os.chown(os.path.join(root, x), NOBODY, NOBODY)
        env = {
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": os.path.join(d, "home"),
            "TMPDIR": os.path.join(d, "tmp"),
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "PYTHONHASHSEED": "0",
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(d, "pyc"),
            "PYTHONUTF8": "0",
            "MC_REPO": repo,
            "MC_VERIF": verif,
            "MC_DIR": d,
            "MC_SHARD": str(shard),
            "MC_NSHARDS": str(nshards),
            "MC_TIER": "thorough" if tier == "thorough" else "quick",
            "MC_MODE": "replay" if replay else "explore",
        }
        err = open(os.path.join(scratch, f"w{shard}.err"), "wb")

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
            if drop:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)

        procs.append(
            subprocess.Popen(
                [PYTHON, "-W", "ignore", "-c",
                 f"import sys; sys.path.insert(0, {verif!r}); from mc import worker; worker.main({prop!r})"],
                cwd=os.path.join(d, "cwd"), env=env, preexec_fn=pre,
                stdin=subprocess.DEVNULL, stdout=err, stderr=err,
            )
        )
    deadline = t0 + WALL_LIMIT[tier]
    timed_out = False
    for p in procs:
        try:
            p.wait(max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            break
    for p in procs:  # also ends stray children of the worker's session
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    results, violations = [], []
    for shard in range(nshards):
        d = os.path.join(scratch, f"w{shard}")
        rp = os.path.join(d, "result.json")
        try:
            with open(rp) as f:
                r = json.load(f)
            results.append(r)
            violations += r["violations"]
        except (OSError, ValueError):
            tail = b""
            try:
                with open(os.path.join(scratch, f"w{shard}.err"), "rb") as f:
                    tail = f.read()[-3000:]
            except OSError:
                pass
            cur = None
            try:
                with open(os.path.join(d, "current")) as f:
                    cur = f.read()
            except OSError:
                pass
            violations.append({
                "order": [10 ** 6, shard], "space": "(worker)", "case": cur,
                "message": ("no answer within the wall limit" if timed_out
                            else f"the process exploring the code ended with status {procs[shard].returncode}")
                + "\n" + tail.decode("utf-8", "replace"),
            })
    violations.sort(key=lambda v: v["order"])

    wall = time.time() - t0
    if not replay:
        _evidence(prop, tier, results, violations, wall, nshards, findings)
    hit = {}
    for r in results:
        for s, c in r["known_hit"]:
            hit[(s, c)] = True
    for s, c, what in findings:
        if (s, c) in hit:
            print(f"KNOWN-FINDING: property={prop} {what}  [space={s} case={c}]")
    if violations:
        v = violations[0]
        if replay:
            path = replay
        else:
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(json.dumps([v["space"], v["case"]]).encode()).hexdigest()[:12]
            path = os.path.join(rdir, f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "space": v["space"], "case": v["case"],
                           "message": v["message"], "replay": f"./run.py {prop} replay {path}"}, f, indent=1)
        print(f"{prop}: violated in space '{v['space']}', case {str(v['case'])[:2000]}\n  {v['message'][:3000]}")
        if len(violations) > 1:
            print(f"  ({len(violations)} failing cases recorded; the first in enumeration order is shown)")
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1
    tot = {k: sum(r["counts"][k] for r in results) for k in ("cases", "ops")}
    print(f"{prop}: held on {tot['cases']} cases, {tot['ops']} compared operations ({tier}, {wall:.1f}s)")
    return 0


def _evidence(prop, tier, results, violations, wall, nshards, findings):
    from mc import registry

    meta = registry.META[prop]
    spaces = {}
    states = {}
    outcomes = {}
    samples = []
    for r in results:
        for name, s in r["spaces"].items():
            a = spaces.setdefault(name, {"cases": 0, "operations": 0, "states": 0, "bound": s["bound"], "completed": True})
            a["cases"] += s["cases"]
            a["operations"] += s["ops"]
            a["completed"] = a["completed"] and s["completed"]
            states.setdefault(name, set()).update(s["states"])
        for k, n in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + n
        samples += r["samples"]
    for name in spaces:
        spaces[name]["states"] = len(states[name])
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": meta["level"],
        "coverage": {
            "states": sum(s["states"] for s in spaces.values()),
            "transitions": sum(s["operations"] for s in spaces.values()),
            "traces_validated_against_impl": sum(s["cases"] for s in spaces.values()),
            "distinct_observed_outcomes": len(outcomes),
            "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
            "exhaustive": bool(spaces) and all(s["completed"] for s in spaces.values()) and not violations,
            "rule": "states: distinct reference-model states (or inputs) reached; transitions: operations executed on "
                    "the real code and compared with the reference model; traces: complete cases/histories replayed "
                    "on the real code. Every case of each space within its bound is enumerated; none is sampled.",
            "spaces": spaces,
            "samples": samples[:12],
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    if meta["level"] == "fault_enumeration":
        ev["coverage"]["evaluations"] = ev["coverage"].pop("traces_validated_against_impl")
        ev["coverage"]["distinct_nontrivial"] = ev["coverage"].pop("states")
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
