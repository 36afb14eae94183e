"""Developer's tool: mutation testing of the checks on the symbolic side only (no build, no replay).

  mutate.py base OUT.json                      which task of which check reaches which function of the tree
  mutate.py run BASE.json FILE [-j N] [-k N] [--only REGEX] [--lines A-B]
                                               mutate FILE (relative to the tree), run the tasks that reach the changed
                                               function until one reports a violation, print the survivors
The tree is $VERIF_REPO (default /repo); nothing is written to it.
"""
import importlib
import io
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time
import tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CHECKS = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if re.fullmatch(r"c\d\d\.py", f))


# ------------------------------------------------------------------ exploring tasks in forked children

def forked(tasks, deadline, jobs, stop=False):
    """Run tasks in forked processes, yield (task, result)."""
    from engine import run
    pend, running = list(tasks), {}
    tmp = tempfile.mkdtemp(prefix="mut-")
    n = 0
    try:
        while pend or running:
            while pend and len(running) < jobs:
                h = pend.pop(0)
                out = os.path.join(tmp, str(n))
                n += 1
                pid = os.fork()
                if pid == 0:
                    try:
                        import resource
                        import signal
                        signal.alarm(max(5, int(deadline - time.time()) + 5))
                        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                        r = run.explore(h, min(deadline, time.time() + 60))
                        with open(out, "wb") as f:
                            pickle.dump(r, f)
                    except BaseException as e:
                        with open(out, "wb") as f:
                            pickle.dump({"name": h["name"], "crash": repr(e)}, f)
                    finally:
                        os._exit(0)
                running[pid] = (h, out)
            pid, st = os.wait()
            h, out = running.pop(pid)
            try:
                with open(out, "rb") as f:
                    r = pickle.load(f)
            except Exception:
                r = {"name": h["name"], "crash": "died"}
            yield h, r
    finally:
        for pid in running:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
        shutil.rmtree(tmp, ignore_errors=True)


def base(out):
    os.environ["PYTHONHASHSEED"] = "0"
    from engine import run
    run.load_shadow(REPO)
    # profile every path, not only the first
    real = run._profiler
    res = []
    for c in CHECKS:
        mod = run.load_harness(c.upper())
        tasks = list(mod.harnesses("quick"))
        for h, r in forked(tasks, time.time() + 600, 8):
            if "crash" in r:
                print("CRASH", c, h["name"], r["crash"])
                continue
            res.append({"check": c, "task": h["name"], "seconds": r["seconds"], "functions": r["functions"],
                        "bad": bool(r["violations"] or r["inconclusive"])})
        print(c, len(tasks), flush=True)
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ mutants

SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"],
        "*": ["/"], "/": ["*"], "+=": ["-=", "="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "and": ["or"],
        "or": ["and"], "True": ["False"], "False": ["True"], "min": ["max"], "max": ["min"], "continue": ["break"],
        "break": ["continue"], "not": [""], "is": ["is not"], "if": ["if not"], "elif": ["elif not"],
        "timestep": [], "%": ["*"], "//": ["*"], "any": ["all"], "all": ["any"], "while": ["while not"],
        "parents": ["children"], "lower": ["upper"], "fmin": ["fmax"], "fmax": ["fmin"]}


def mutants(src):
    """[(line, col, endcol, new)]"""
    lines = src.split("\n")
    out = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        toks = []
    prev = None
    depth = 0
    for i, t in enumerate(toks):
        s = t.string
        (l, c), (l2, c2) = t.start, t.end
        if l != l2:
            prev = t
            continue
        if t.type == tokenize.OP and s in "([{":
            depth += 1
        if t.type == tokenize.OP and s in ")]}":
            depth -= 1
        head = lines[l - 1].strip()
        if head.startswith(("import ", "from ", "cimport ", "@", "cdef extern", "ctypedef", "cdef class", "class ",
                            "#", "raise", "__all__")):
            prev = t
            continue
        isdef = re.match(r"(def|cpdef|cdef)\b.*[:(,]\s*$", head) and "=" not in head
        if not isdef:
            if s in SWAP and not (s == "*" and prev and prev.string in "(,") and not (s in "-" and prev and prev.string in "(,=[:"):
                for new in SWAP[s]:
                    if s == "is" and toks[i + 1].string == "not":
                        continue
                    if s == "not" and prev and prev.string == "is":
                        new = ""
                    out.append((l, c, c2, new))
            elif t.type == tokenize.NUMBER and re.fullmatch(r"\d+", s):
                out.append((l, c, c2, str(int(s) + 1)))
            elif t.type == tokenize.NUMBER and re.fullmatch(r"\d+\.\d*", s):
                out.append((l, c, c2, str(float(s) + 1)))
        prev = t
    # statement deletion
    for n, line in enumerate(lines, 1):
        st = line.strip()
        if re.match(r"(self\.|[a-z_]\w*(\[[^\]]*\])?(\.\w+)*(\[[^\]]*\])?\s*([-+*/]?=)[^=]|[a-z_][\w.]*\()", st) and st.count("(") == st.count(")") \
                and st.count("[") == st.count("]") and st.count("{") == st.count("}") and not st.endswith((",", ":", "\\", "(")) \
                and not st.startswith(("cdef", "raise", "import")) and indent(line) > 0:
            # must be a complete statement: previous line does not end in an open bracket
            p = lines[n - 2].rstrip() if n > 1 else ""
            if not p.endswith((",", "(", "[", "{", "\\")):
                out.append((n, indent(line), len(line), "pass"))
    return sorted(set(out))


def indent(s):
    return len(s) - len(s.lstrip())


def functions(src):
    """line -> qualname of the enclosing function"""
    stack, where = [], {}
    indoc = False
    for n, line in enumerate(src.split("\n"), 1):
        st = line.strip()
        q = st.count('"""') + st.count("'''")
        if indoc:
            if q % 2:
                indoc = False
            continue
        if q % 2:
            indoc = True
        if not st or st.startswith("#"):
            continue
        ind = indent(line)
        cont = re.match(r"[)\]}]", st)
        m = re.match(r"(?:cdef\s+class|class)\s+(\w+)", st)
        f = re.match(r"(?:async\s+)?(?:def|cpdef|cdef)\s+[^=(]*?(\w+)\s*\(", st)
        if not cont:
            while stack and stack[-1][0] >= ind and not (n_open(stack)):
                stack.pop()
        if m:
            stack.append((ind, m.group(1), "c"))
        elif re.match(r"property\s+(\w+)\s*:", st):
            stack.append((ind, re.match(r"property\s+(\w+)", st).group(1), "p"))
        elif f and not st.startswith("cdef extern") and (st.endswith((":", ",", "(")) or ":" in st):
            stack.append((ind, f.group(1), "f"))
        names = []
        for i, (_, nm, k) in enumerate(stack):
            if k == "p":
                continue
            if i and stack[i - 1][2] == "p":
                nm = "_kprop_%s_%s" % (nm.strip("_"), stack[i - 1][1])
            names.append(nm)
        if stack and any(k == "f" for _, _, k in stack):
            where[n] = names
    return where


def n_open(stack):
    return False


def run(basef, rel, jobs, opts):
    with open(basef) as f:
        tasks = json.load(f)
    src = open(os.path.join(REPO, rel)).read()
    ms = mutants(src)
    fn = functions(src)
    lines = src.split("\n")
    key = rel[len("pywr/"):] if rel.startswith("pywr/") else rel
    reach = {}
    for t in tasks:
        if t["bad"]:
            continue
        for q in t["functions"]:
            m, name = q.split(":", 1)
            if m.endswith(rel) or m.endswith(key) or m.replace(".", "/") == key.rsplit(".", 1)[0] or \
                    m.replace(".", "/") == rel.rsplit(".", 1)[0]:
                reach.setdefault(name.replace("<locals>.", ""), []).append(t)
    if opts.get("lines"):
        a, b = map(int, opts["lines"].split("-"))
        ms = [m for m in ms if a <= m[0] <= b]
    jobsl = []
    unreached = {}
    for m in ms:
        if m[0] not in fn:
            continue
        names = fn[m[0]]
        q = ".".join(names)
        cand = reach.get(q)
        if cand is None:
            # properties: q__get__ etc
            cand = [t for k, v in reach.items() if k.startswith(q + ".") or k == q for t in v]
        if not cand:
            unreached.setdefault(q, []).append(m)
            continue
        jobsl.append((m, q, cand))
    if opts.get("only"):
        jobsl = [j for j in jobsl if re.search(opts["only"], j[1])]
    print("%s: %d mutants, %d in functions reached; unreached functions: %s" % (
        rel, len(ms), len(jobsl), ", ".join("%s(%d)" % (k, len(v)) for k, v in sorted(unreached.items()))), flush=True)
    if opts.get("list"):
        return
    running = {}
    surv = 0
    stats = {}
    queue = list(enumerate(jobsl))
    work = tempfile.mkdtemp(prefix="mutw-")
    free = list(range(jobs))
    log = open(opts["out"], "a") if opts.get("out") else None
    try:
        while queue or running:
            while queue and free:
                i, (m, q, cand) = queue.pop(0)
                k = free.pop()
                d = os.path.join(work, "t%d" % k)
                if not os.path.exists(d):
                    shutil.copytree(os.path.join(REPO, "pywr"), os.path.join(d, "pywr"),
                                    ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
                l, c, e, new = m
                ml = list(lines)
                ml[l - 1] = ml[l - 1][:c] + new + ml[l - 1][e:]
                with open(os.path.join(d, rel), "w") as f:
                    f.write("\n".join(ml))
                cand = sorted({(t["seconds"], t["check"], t["task"]) for t in cand})
                # spread over the checks: the cheapest tasks of each check first
                cap = int(opts.get("k", 160))
                by = {}
                order = []
                home = anchored(rel)
                for s, ch, t in cand:
                    g = (ch, re.split(r"[ :,(\[]", t)[0])
                    by[g] = by.get(g, 0) + 1
                    order.append((ch.upper() not in home, by[g] // 3, s, ch, t))
                order.sort()
                spec = os.path.join(work, "s%d.json" % k)
                with open(spec, "w") as f:
                    json.dump([o[-2:] for o in order[:cap]], f)
                out = os.path.join(work, "o%d" % k)
                p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "one", spec],
                                     env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"),
                                     stdout=open(out, "w"), stderr=subprocess.STDOUT)
                running[p.pid] = (p, k, i, m, q, out, ml[l - 1], d)
            time.sleep(0.05)
            for pid, (p, k, i, m, q, out, nl, d) in list(running.items()):
                if p.poll() is None:
                    continue
                del running[pid]
                free.append(k)
                with open(os.path.join(d, rel), "w") as f:
                    f.write(src)
                txt = open(out).read().strip().split("\n")
                last = txt[-1] if txt else "?"
                kind = last.split(" ")[0]
                stats[kind] = stats.get(kind, 0) + 1
                if kind not in ("KILLED", "NOLOAD"):
                    surv += 1
                    s = "%s %s:%d [%s]\n    - %s\n    + %s\n    (%s)" % (
                        kind, rel, m[0], q, lines[m[0] - 1].strip(), nl.strip(), last[:300])
                    print(s, flush=True)
                    if log:
                        log.write(s + "\n")
                        log.flush()
    finally:
        for p, *_ in running.values():
            p.kill()
        shutil.rmtree(work, ignore_errors=True)
    print(rel, stats, flush=True)


def anchored(rel):
    """The properties that name this file: their tasks go first."""
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        return {json.loads(l)["id"] for l in f if rel in l}


def one(spec):
    from engine import run as R
    with open(spec) as f:
        want = json.load(f)
    try:
        R.load_shadow(os.environ["VERIF_REPO"])
        mods = {}
        tasks = []
        for ch, t in want:
            if ch not in mods:
                mods[ch] = {h["name"]: h for h in R.load_harness(ch.upper()).harnesses("quick")}
            if t in mods[ch]:
                tasks.append((ch, mods[ch][t]))
    except BaseException as e:
        print("NOLOAD %s" % repr(e)[:200])
        return
    t0 = time.time()
    odd = []
    n = 0
    for ch, h in tasks:
        if time.time() - t0 > 100:
            break
        n += 1
        for _, r in forked([h], time.time() + 25, 1):
            if r.get("violations"):
                print("KILLED %s %s: %s" % (ch, h["name"], r["violations"][0]["label"]))
                return
            if r.get("crash") or r.get("inconclusive") or not (r.get("ended") and r.get("reached")):
                odd.append("%s %s %s" % (ch, h["name"], (r.get("crash") or str(r.get("inconclusive")))[-150:].replace("\n", " ")))
    if odd:
        print("ODD %d of %d: %s" % (len(odd), n, odd[0]))
    else:
        print("SURVIVED %d of %d tasks" % (n, len(tasks)))


if __name__ == "__main__":
    sys.path[:0] = [HERE]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(10000)
    a = sys.argv[1:]
    if a[0] == "base":
        base(a[1])
    elif a[0] == "one":
        one(a[1])
    else:
        opts = {}
        pos = []
        it = iter(a[1:])
        for x in it:
            if x == "--list":
                opts["list"] = True
            elif x.startswith("-"):
                opts[x.lstrip("-")] = next(it)
            else:
                pos.append(x)
        run(pos[0], pos[1], int(opts.get("j", 8)), opts)
