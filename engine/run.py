"""Check driver: symbolic exploration of a property's harnesses, replay on the real build, evidence."""
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
for _k in list(os.environ):
    if _k.startswith("PYWR_"):
        del os.environ[_k]


# ----------------------------------------------------------------------------------- symbolic side

def load_shadow(root):
    from . import loader, lpstub
    stubs = dict(lpstub.STUBS)
    try:
        from . import lpsolvestub
        stubs.update(lpsolvestub.STUBS)
    except ImportError:
        pass
    sh = loader.install(root, stubs)
    import warnings
    warnings.simplefilter("ignore")
    import pywr.core, pywr.parameters, pywr.recorders, pywr.nodes, pywr.model  # noqa
    import pywr.domains.river, pywr.domains.groundwater  # noqa
    return sh


def load_harness(prop):
    """Import checks.cNN with harness-side instrumentation (merged branches)."""
    return importlib.import_module("checks.%s" % prop.lower())


def explore(h, deadline):
    """Run one harness task symbolically; returns a result dict."""
    from . import sym, krt, lpstub
    from .env import SymEnv, ReplayMismatch
    opts = dict(branch_timeout=5000, check_timeout=20000)
    opts.update(h.get("opts", {}))
    res = dict(name=h["name"], paths=0, ended=0, reached={}, violations=[], inconclusive=[], complete=False,
               witnesses=[], functions=[], vacuous=0, seconds=0.0)
    t0 = time.time()
    prefix = []
    krt.SYMBOLIC[0] = True
    funcs = set()
    maxw = h.get("witnesses", 2)
    first = True
    while True:
        if time.time() > deadline:
            res["inconclusive"].append(("budget", "time budget exhausted after %d paths" % res["paths"]))
            break
        c = sym.Ctx(prefix, deadline, opts)
        sym.CTX = c
        lpstub.HOOK[0] = None
        env = SymEnv(c, opts)
        fresh_state()
        end = None
        prof = None
        if first:
            prof = _profiler(funcs)
            sys.setprofile(prof)
        try:
            h["fn"](env, **h.get("params", {}))
            end = "done"
        except sym.PathEnd:
            end = "pruned"
        except sym.Budget:
            end = "budget"
        except sym.EngineError as e:
            end = "engine"
            res["inconclusive"].append(("engine", _tb(e)))
            w = _witness(env, c)
            if w is not None:
                res["witnesses"].append({"values": w, "kind": "undecided path"})
        except RecursionError as e:
            end = "engine"
            res["inconclusive"].append(("engine", "recursion"))
        except Exception as e:
            end = "exception"
            tb = _tb(e)
            label = "exception %s" % type(e).__name__
            w = _witness(env, c)
            if w is not None:
                env.violations.append({"label": label, "values": w, "tb": tb})
            elif not env.violations:
                res["inconclusive"].append((label, tb))
        finally:
            if first:
                sys.setprofile(None)
                first = False
        res["paths"] += 1
        for k, v in env.reached.items():
            res["reached"][k] = res["reached"].get(k, 0) + v
        res["violations"].extend(env.violations)
        for i in env.inconclusive:
            if i not in res["inconclusive"]:
                res["inconclusive"].append(i)
        if end == "done":
            # reachability twin: the end of the path must be satisfiable
            w = _witness(env, c) if len(res["witnesses"]) < maxw or res["ended"] == 0 else True
            if w is None:
                res["vacuous"] += 1
            else:
                res["ended"] += 1
                if len(res["witnesses"]) < maxw and w is not True:
                    res["witnesses"].append({"values": w, "kind": "path"})
        if end == "budget":
            res["inconclusive"].append(("budget", "time budget exhausted after %d paths" % res["paths"]))
            break
        if len(res["violations"]) >= h.get("max_violations", 3):
            break
        if len(res["inconclusive"]) > 20:
            break
        if res["paths"] >= h.get("max_paths", 20000):
            res["inconclusive"].append(("budget", "path limit"))
            break
        # a path may have ended before replaying the whole prefix (cannot happen unless
        # non-deterministic)
        if len(c.decisions) < len(prefix):
            res["inconclusive"].append(("engine", "non-deterministic replay"))
            break
        prefix = sym.next_prefix(c.decisions)
        if prefix is None:
            res["complete"] = not any(k in ("engine",) for k, _ in res["inconclusive"])
            break
    res["functions"] = sorted(funcs)
    res["stats"] = dict(sym.STATS)
    res["seconds"] = time.time() - t0
    if sym.FORKLOG:
        for k, v in sorted(sym.FORKLOG.items(), key=lambda x: -x[1])[:12]:
            print("FORK %6d %s" % (v, k))
    sym.CTX = None
    krt.SYMBOLIC[0] = False
    return res


def fresh_state():
    """Reset process-wide state a previous path may have left."""
    from . import krt
    krt._KID[0] = 0


def _profiler(funcs):
    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith("<lowered ") or ("/pywr/" in f and "site-packages" not in f):
                m = f[9:-1] if f[0] == "<" else f.split("/pywr/", 1)[1]
                funcs.add(m + ":" + frame.f_code.co_qualname)
    return prof


def _tb(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(tb)[-1800:]


def _witness(env, c):
    """Concrete input values for the current path, or None."""
    try:
        m = env._nice([])
        return None if m is None else env._values(m)
    except BaseException:
        return None


def run_tasks(tasks, total_deadline, tier="quick"):
    """Fork one process per task, JOBS at a time."""
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    tmp = tempfile.mkdtemp(prefix="vp-sym-")
    from_start = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while pending or running:
            while pending and len(running) < JOBS:
                i, h = pending.pop(0)
                out = os.path.join(tmp, "%d.pkl" % i)
                budget = min(h.get("budget", 60 if tier == "quick" else 600), max(1.0, total_deadline - time.time()))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        import faulthandler
                        import resource
                        lim = h.get("mem", 6) * 2**30
                        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                        r = explore(h, time.time() + budget)
                        with open(out + ".t", "wb") as f:
                            pickle.dump(r, f)
                        os.rename(out + ".t", out)
                        code = 0
                    except BaseException as e:
                        try:
                            with open(out + ".t", "wb") as f:
                                pickle.dump({"name": h["name"], "crash": _tb(e)}, f)
                            os.rename(out + ".t", out)
                        except BaseException:
                            pass
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                running[pid] = (i, h, out, time.time() + budget + 60)
            time.sleep(0.02)
            for pid, (i, h, out, dl) in list(running.items()):
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() > dl:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                    else:
                        continue
                del running[pid]
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        results[i] = pickle.load(f)
                    os.unlink(out)
                else:
                    results[i] = {"name": h["name"], "crash": "worker died or exceeded its time"}
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results


# ----------------------------------------------------------------------------------- main

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)["findings"]
    return []


def rerun(path):
    """Run a saved counterexample on the real build of the current tree: 1 when it still violates."""
    from . import realbuild
    with open(path) as f:
        j = json.load(f)
    build = realbuild.Build(REPO)
    build.start()
    try:
        root = build.wait()
        if root is None:
            print("ERROR: the real build failed:\n%s" % build.error[-3000:])
            return 2
        out = replay_jobs(j["property"].upper(), j["tier"], root, [j])[0]
    finally:
        build.cleanup()
    print(json.dumps(out, indent=1))
    return 1 if out.get("violations") or out.get("exception") or out.get("signal") else 2 if "crash" in out else 0


def main(argv):
    if argv[0] == "replay":
        return rerun(argv[1])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = 240 if tier == "quick" else 3000
    from . import realbuild
    build = realbuild.Build(REPO)
    build.start()
    try:
        try:
            load_shadow(REPO)
            mod = load_harness(prop)
        except BaseException as e:
            print("ERROR: cannot encode the current source: %s" % _tb(e))
            return 2
        tasks = [h for h in mod.harnesses(tier)]
        if only:
            tasks = [h for h in tasks if only in h["name"]]
        results = run_tasks(tasks, t0 + total, tier)
        return finish(prop, tier, seed, t0, mod, tasks, results, build)
    finally:
        build.cleanup()


def finish(prop, tier, seed, t0, mod, tasks, results, build):
    known = {k["id"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    confirmed, unrepro, inconcl, crashes = [], [], [], []
    jobs = []
    for h, r in zip(tasks, results):
        if r is None or "crash" in r:
            crashes.append((h["name"], (r or {}).get("crash", "?")))
            continue
        for v in r["violations"]:
            jobs.append(dict(kind="violation", task=h["name"], label=v["label"], values=v["values"], tb=v.get("tb")))
        for w in r["witnesses"]:
            jobs.append(dict(kind=w["kind"], task=h["name"], label=None, values=w["values"]))
        for lab, why in r["inconclusive"]:
            inconcl.append((h["name"], lab, why))
    replayed = []
    build_ok = True
    if jobs:
        root = build.wait()
        if root is None:
            build_ok = False
            print("ERROR: the real build failed:\n%s" % build.error[-3000:])
        else:
            replayed = replay_jobs(prop, tier, root, jobs)
    validated, mismatched = 0, []
    knownhit = {}
    # A path that ended in an exception of the encoding may go on in C (a null object read as memory, say): the inputs
    # it did not determine are then arbitrary
    again = [(i, dict(j, values=dict(j["values"]), fill=k)) for i, (j, out) in enumerate(zip(jobs, replayed))
             if j["kind"] == "violation" and j["label"].startswith("exception") and out.get("missing")
             and not (out.get("violations") or out.get("exception")) for k in range(3)][:60]
    if again:
        for (i, j), out in zip(again, replay_jobs(prop, tier, root, [j for _, j in again])):
            big = [v for v in out.get("violations", []) if v.get("margin") is not None and v["margin"] > 1e-3]
            if big and not replayed[i].get("violations"):
                replayed[i] = out
                jobs[i]["values"] = out["values"]
                jobs[i]["label"] = big[0]["label"]
    for j, out in zip(jobs, replayed):
        j["out"] = out
        bad = out.get("violations") or out.get("exception")
        if j["kind"] == "violation":
            bad = bad or out.get("signal") in (4, 6, 7, 8, 11)
            if bad:
                kid = known_match(known, j, out)
                if kid:
                    knownhit[kid] = j
                else:
                    confirmed.append(j)
            else:
                unrepro.append(j)
        else:
            if out.get("crash") or out.get("mismatch"):
                mismatched.append(j)
            elif bad:
                kid = known_match(known, j, out)
                if kid:
                    knownhit[kid] = j
                    continue
                ms = [v.get("margin") for v in out.get("violations", [])]
                big = any(m is not None and m > 1e-3 for m in ms)
                if big or (out.get("exception") and j["kind"] == "undecided path"):
                    j["label"] = "on the real build: %s" % (out["violations"][0]["label"] if out.get("violations")
                                                           else out["exception"][:200])
                    confirmed.append(j)
                else:
                    mismatched.append(j)
            else:
                validated += 1
    ev = evidence(prop, tier, seed, t0, mod, tasks, results, confirmed, unrepro, inconcl, crashes, validated,
                  mismatched, build, knownhit)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for kid, k in known.items():
        if kid in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, lab, why in inconcl[:12]:
        print("INCONCLUSIVE %s: %s: %s" % (n, lab, str(why).strip().splitlines()[-1][:300] if why else ""))
        if os.environ.get("VP_DEBUG"):
            print(why)
    for n, c in crashes:
        print("ERROR %s: %s" % (n, c))
    for j in mismatched[:5]:
        print("NOTE witness of %s differs on the real build: %s" % (j["task"], json.dumps(j.get("out"))[:600]))
    print("%s %s: %d tasks, %d paths, %d checks reached, %d witnesses replayed, %.1fs" % (
        prop, tier, len(tasks), ev["coverage"]["paths"], ev["coverage"]["assertions"], validated, time.time() - t0))
    if os.environ.get("VP_DEBUG"):
        for r in sorted(results, key=lambda r: -r.get("seconds", 0))[:12]:
            print("TIME %-50s %5.1fs %4d paths" % (r["name"], r.get("seconds", 0), r["paths"]))
    if confirmed:
        seen = set()
        for n, j in enumerate(confirmed):
            key = (j["task"], j["label"])
            if key in seen:
                continue
            seen.add(key)
            p = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump({"property": prop, "tier": tier, "task": j["task"], "label": j["label"],
                           "values": j["values"], "fill": j.get("fill"), "observed": j["out"]}, f, indent=1)
            print("  %s: %s" % (j["task"], j["label"]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    strict = os.environ.get("VP_STRICT") == "1"      # development: engine trouble is a failure
    if unrepro:
        for j in unrepro[:6]:
            print("UNDECIDED unreproduced counterexample %s: %s\n   values %s\n   real: %s\n   %s" % (
                j["task"], j["label"], json.dumps(j["values"])[:1500], json.dumps(j["out"])[:800],
                (j.get("tb") or "")[-1200:]))
        if strict:
            return 2
    if not build_ok or crashes and strict:
        return 2
    decided = [r for r in results if r and r.get("ended", 0) > 0 and r["reached"]]
    if not decided:
        print("ERROR: nothing was decided (vacuous)")
        return 2
    vac = [r["name"] for r in results if r and not (r.get("ended", 0) > 0 and r["reached"])
           and not r["inconclusive"]]
    if vac:
        print("UNDECIDED vacuous harnesses: %s" % ", ".join(vac))
        if strict:
            return 2
    return 0


def known_match(known, j, out):
    """A listed finding covers this counterexample: same task prefix and label, and its values satisfy `when`."""
    for kid, k in known.items():
        if not j["task"].startswith(k["task"]):
            continue
        labs = [j.get("label") or ""] + [v["label"] for v in out.get("violations", [])] + [out.get("exception") or ""]
        if k.get("label") and not any(k["label"] in x for x in labs):
            continue
        if k.get("when"):
            try:
                if not eval(k["when"], {"__builtins__": {"abs": abs, "min": min, "max": max, "any": any, "all": all}},
                            {"v": j["values"]}):
                    continue
            except Exception:
                continue
        return kid
    return None


def replay_jobs(prop, tier, root, jobs):
    """Replay on the real build in subprocesses (up to JOBS at a time)."""
    n = max(1, min(JOBS, (len(jobs) + 9) // 10))
    chunks = [jobs[i::n] for i in range(n)]
    outs = [None] * n
    procs = []
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    so = os.path.join(tmp, "glpkshim.so")
    env = dict(os.environ, PYTHONPATH=root + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so,
                        os.path.join(VERIF, "engine", "glpkshim.c"), "-ldl"], capture_output=True)
    if r.returncode == 0:
        env["LD_PRELOAD"] = so
    import shutil
    try:
        for i, ch in enumerate(chunks):
            inp = os.path.join(tmp, "in%d.json" % i)
            with open(inp, "w") as f:
                json.dump([dict(prop=prop, tier=tier, task=j["task"], values=j["values"], fill=j.get("fill")) for j in ch], f)
            procs.append(subprocess.Popen([sys.executable, "-m", "engine.replay", inp, os.path.join(tmp, "out%d" % i)],
                                          cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for i, p in enumerate(procs):
            try:
                so_, _ = p.communicate(timeout=400)
            except subprocess.TimeoutExpired:
                p.kill()
                so_, _ = p.communicate()
            lines = []
            o = os.path.join(tmp, "out%d" % i)
            if os.path.exists(o):
                with open(o) as f:
                    lines = [json.loads(x) for x in f if x.strip()]
            while len(lines) < len(chunks[i]):
                lines.append({"crash": "replay process ended early: %s" % so_[-800:].decode("utf8", "replace")})
            outs[i] = lines
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = [None] * len(jobs)
    for i in range(n):
        for k, o in enumerate(outs[i]):
            res[i + k * n] = o
    return res


def evidence(prop, tier, seed, t0, mod, tasks, results, confirmed, unrepro, inconcl, crashes, validated, mismatched,
             build, knownhit):
    ok = [r for r in results if r and "crash" not in r]
    funcs = sorted({f for r in ok for f in r["functions"]})
    st = {k: sum(r["stats"][k] for r in ok) for k in ("queries", "solver_s", "unknown", "forks")}
    samples = []
    for r in ok[:6]:
        samples.append({"harness": r["name"], "paths": r["paths"], "complete": r["complete"],
                        "reached": dict(list(r["reached"].items())[:6]),
                        "witness": (r["witnesses"][0]["values"] if r["witnesses"] else None)})
    cov = {
        "states": sum(r["paths"] for r in ok),
        "transitions": sum(r["stats"]["forks"] for r in ok),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "paths": sum(r["paths"] for r in ok),
        "assertions": sum(sum(r["reached"].values()) for r in ok),
        "queries": st["queries"], "solver_seconds": round(st["solver_s"], 2), "solver_unknown": st["unknown"],
        "functions_encoded": funcs,
        "harnesses": [{"name": r["name"], "paths": r["paths"], "complete": r["complete"],
                       "assertions": sum(r["reached"].values()), "seconds": round(r["seconds"], 2),
                       "inconclusive": [str(x[0]) + ": " + str(x[1])[-200:] for x in r["inconclusive"]][:5]}
                      for r in ok],
        "bounds": getattr(mod, "BOUNDS", ""),
        "outside": getattr(mod, "OUTSIDE", ""),
        "inconclusive": len(inconcl), "crashed": [c[0] for c in crashes],
        "witness_mismatches": len(mismatched), "unreproduced": len(unrepro),
        "known_findings_seen": sorted(knownhit),
        "real_build": build.describe(),
        "explanation": "states = symbolic paths explored (each path stands for all inputs meeting its path "
                       "condition); transitions = solver-decided branch points; queries = SMT queries.",
    }
    return {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
                "C double / Python float arithmetic modelled as exact real arithmetic (inf and NaN concrete)",
                "C int arithmetic modelled as unbounded integers"],
            "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
