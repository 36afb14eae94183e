"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec listing seed(id, prop, edits, demo, needs, breaks) calls.
The edits are applied in a scratch clone of /repo, so the patch is always against its HEAD."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
WT = "/tmp/wt"


def sh(*a):
    return subprocess.run(a, cwd=WT, check=True, capture_output=True, text=True).stdout


def seed(id, prop, edits, demo, needs, breaks):
    sh("git", "checkout", "-q", "--", ".")
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            sys.exit("%s: %r occurs %d times in %s" % (id, old, n, f))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git", "diff"))
    sh("git", "checkout", "-q", "--", ".")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# Runs in /repo after the build.\nexport PYWR_SOLVER=${PYWR_SOLVER:-glpk}\n'
                                                'PYTHONPATH=/repo exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)


if __name__ == "__main__":
    if not os.path.isdir(WT):
        subprocess.run(["git", "clone", "-q", "/repo", WT], check=True)
    sh("git", "pull", "-q", "--ff-only")
    exec(open(sys.argv[1]).read(), {"seed": seed})
