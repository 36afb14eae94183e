"""Replay recorded inputs against the real build: python -m engine.replay IN.json OUT
   or: python -m engine.replay evidence/replay-X.json   (prints the outcome)"""
import json
import os
import sys
import traceback
import warnings


def run_one(job):
    import importlib
    from engine.env import RealEnv, ReplayMismatch, Stop
    mod = importlib.import_module("checks.%s" % job["prop"].lower())
    h = None
    for tier in (job.get("tier", "quick"), "quick", "thorough"):
        for x in mod.harnesses(tier):
            if x["name"] == job["task"]:
                h = x
                break
        if h:
            break
    if h is None:
        return {"crash": "no such task"}
    env = RealEnv(dict(job["values"]), fill=job.get("fill"))
    out = {}
    try:
        h["fn"](env, **h.get("params", {}))
    except Stop:
        pass
    except ReplayMismatch as e:
        out["mismatch"] = str(e)
    except Exception as e:
        errs = env.simplex_errors()
        if env.violations:
            pass
        elif errs:
            e2 = errs[0]
            if isinstance(e2, ReplayMismatch):
                out["mismatch"] = str(e2)
            else:
                out["exception"] = "".join(traceback.format_exception(type(e2), e2, e2.__traceback__))[-1500:]
        else:
            out["exception"] = "%s: %s\n" % (type(e).__name__, e) + traceback.format_exc()[-1500:]
    finally:
        try:
            import ctypes
            ctypes.CDLL(None).vp_set_callback(None)
        except Exception:
            pass
    if env.violations:
        out["violations"] = env.violations
        if env.fill is not None:
            out["values"] = env.values
        out.pop("exception", None)
        out.pop("mismatch", None)
    out["reached"] = len(env.reached)
    if env.missing:
        out["missing"] = env.missing[:5]
    return out


def main(argv):
    warnings.simplefilter("ignore")
    if len(argv) == 1:
        with open(argv[0]) as f:
            j = json.load(f)
        out = run_one(dict(prop=j["property"], tier=j["tier"], task=j["task"], values=j["values"]))
        print(json.dumps(out, indent=1))
        return 1 if out.get("violations") or out.get("exception") else 0
    with open(argv[0]) as f:
        jobs = json.load(f)
    # each replay in a forked child: state and crashes stay apart
    import pywr.core, pywr.parameters, pywr.recorders  # noqa
    with open(argv[1], "w") as o:
        for j in jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import signal
                    signal.alarm(120)
                    s = json.dumps(run_one(j), default=str)
                except BaseException as e:
                    s = json.dumps({"crash": traceback.format_exc()[-1500:]})
                with os.fdopen(w, "w") as f:
                    f.write(s)
                sys.stdout.flush()
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                s = f.read()
            _, st = os.waitpid(pid, 0)
            if not s:
                s = json.dumps({"crash": "child status %d" % st, "signal": st & 127})
            o.write(s.strip().replace("\n", " ") + "\n")
            o.flush()
    return 0


if __name__ == "__main__":
    if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.exit(main(sys.argv[1:]))
