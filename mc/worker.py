"""Worker side: enumerates this shard's cases of every space and runs them on the real code."""
import ast
import importlib
import json
import locale
import logging
import os
import signal
import sys
import time
import traceback
import warnings

CASE_CPU_LIMIT = 60  # seconds of CPU for a single case: beyond it the code under test hangs


class Hang(BaseException):
    pass


def _on_prof(signum, frame):
    raise Hang()


def main(prop):
    d = os.environ["MC_DIR"]
    repo = os.environ["MC_REPO"]
    tier = os.environ["MC_TIER"]
    shard, nshards = int(os.environ["MC_SHARD"]), int(os.environ["MC_NSHARDS"])
    replay = os.environ["MC_MODE"] == "replay"
    sys.path.insert(0, repo)
    sys.setrecursionlimit(3000)
    warnings.simplefilter("ignore")
    logging.getLogger().addHandler(logging.NullHandler())
    signal.signal(signal.SIGPROF, _on_prof)
    os.umask(0o022)
    # the most demanding environment: text files must not depend on the locale's encoding
    # (file names do not: their encoding was fixed as UTF-8 when the process started)
    locale.setlocale(locale.LC_CTYPE, "C")

    res = {"violations": [], "counts": {"cases": 0, "ops": 0}, "spaces": {}, "outcomes": {},
           "samples": [], "known_hit": []}
    out = os.path.join(d, "result.json")

    def finish():
        with open(out + ".t", "w") as f:
            json.dump(res, f)
        os.rename(out + ".t", out)
        os._exit(0)

    try:
        import vistautils

        where = os.path.realpath(os.path.dirname(vistautils.__file__))
        want = os.path.realpath(os.path.join(repo, "vistautils"))
        if where != want:
            raise RuntimeError(f"vistautils was imported from {where}, not from {want}")
        from mc.core import Trial, Violation

        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
        spaces = mod.SPACES
    except Exception:
        res["violations"].append({"order": [-1, 0], "space": "(import)", "case": None,
                                  "message": "importing the code failed:\n" + traceback.format_exc()})
        finish()

    with open(os.path.join(d, "findings.json")) as f:
        known = {(s, c) for s, c in json.load(f)}
    one = None
    if replay:
        with open(os.path.join(d, "replay.json")) as f:
            one = json.load(f)
    base = os.path.join(d, "tmp")

    def run_case(space, case, t):
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            if space.tmp:
                t.fresh_dir()
                os.chdir(t.dir)
            space.run(case, t)
            return None
        except Violation as e:
            return str(e)
        except Hang:
            return f"no answer within {CASE_CPU_LIMIT}s of CPU time"
        except RecursionError:
            return "unbounded recursion"
        except Exception as e:
            return "unexpected " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        except (SystemExit, KeyboardInterrupt) as e:
            return f"unexpected {type(e).__name__}: {e}"
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if space.tmp:
                t.drop_dir()

    nfail = 0
    for si, space in enumerate(spaces):
        if one is not None and one["space"] != space.name:
            continue
        t = Trial(base)
        n = 0
        completed = True
        t_start = time.time()
        bound = space.bound(tier) if callable(space.bound) else space.bound
        idx = -1
        cases = [ast.literal_eval(one["case"])] if one is not None else space.gen(tier)
        try:
            for idx, case in enumerate(cases):
                if idx % nshards != shard:
                    continue
                n += 1
                msg = run_case(space, case, t)
                if n <= 2 and shard == 0:
                    res["samples"].append({"space": space.name, "case": repr(case)[:600]})
                if msg is not None:
                    key = repr(case)
                    if (space.name, key) in known:
                        res["known_hit"].append([space.name, key])
                        continue
                    res["violations"].append({"order": [si, idx], "space": space.name, "case": key,
                                              "message": msg})
                    nfail += 1
                    completed = False
                    break
        except Exception:
            completed = False
            res["violations"].append({"order": [si, idx + 1], "space": space.name, "case": None,
                                      "message": "enumeration failed:\n" + traceback.format_exc()})
        res["spaces"][space.name] = {"cases": n, "ops": t.ops, "states": sorted(t.states), "bound": bound,
                                     "completed": completed, "wall": round(time.time() - t_start, 2)}
        res["counts"]["cases"] += n
        res["counts"]["ops"] += t.ops
        for k, v in t.outcomes.items():
            res["outcomes"][k] = res["outcomes"].get(k, 0) + v
        if nfail >= 3:
            break
    finish()
