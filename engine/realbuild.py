"""Find or make a real (compiled) build of the current /repo working tree."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile


def digest(path):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


class Build:
    def __init__(self, repo):
        self.repo = repo
        self.tmp = None
        self.root = None
        self.error = ""
        self.proc = None
        self.mode = None

    def stale(self):
        """None: in-tree products are current; 'all' or list of .pyx to rebuild."""
        try:
            with open(os.path.join(self.repo, "build", "vp-stamp.json")) as f:
                before = json.load(f)
        except (OSError, ValueError):
            return "all"
        if os.path.exists(os.path.join(self.repo, "build", "vp-running")):
            return "all"
        g = lambda p: glob.glob(os.path.join(self.repo, p), recursive=True)
        pyx, common = g("pywr/**/*.pyx"), g("pywr/**/*.pxd") + g("pywr/**/*.pxi") + [
            os.path.join(self.repo, x) for x in ("setup.py", "pyproject.toml", "setup.cfg")
            if os.path.exists(os.path.join(self.repo, x))]
        known = {k.replace("/repo/", self.repo.rstrip("/") + "/", 1): v for k, v in before.items()}
        for f in common:
            if known.get(f) != digest(f):
                return "all"
        bad = [f for f in pyx if known.get(f) != digest(f)]
        for f in pyx:
            if not glob.glob(f[:-4] + ".cpython-312*.so") and f not in bad:
                bad.append(f)
        return bad or None

    def start(self):
        s = self.stale()
        if s is None:
            self.root, self.mode = self.repo, "in-tree products are current"
            return
        self.mode = "rebuilt in a scratch copy (%s)" % ("all" if s == "all" else ", ".join(
            os.path.basename(f) for f in s))
        try:
            self._build(s)
        except Exception as e:
            self.error = repr(e)

    def _build(self, s):
        if True:
            self.tmp = tempfile.mkdtemp(prefix="vp-build-")
            dst = os.path.join(self.tmp, "repo")
            shutil.copytree(self.repo, dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "tests"))
            pyx = glob.glob(os.path.join(dst, "pywr/**/*.pyx"), recursive=True)
            rel = None if s == "all" else {os.path.relpath(f, self.repo) for f in s}
            for f in pyx:
                if rel is None or os.path.relpath(f, dst) in rel:
                    for x in glob.glob(f[:-4] + ".c*"):
                        os.unlink(x)
            if rel is None:
                shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
            for f in (glob.glob(os.path.join(dst, "build", "vp-*"))):
                os.unlink(f)
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="1.31.1",
                       LDFLAGS="-L/usr/lib/lp_solve -Wl,-rpath,/usr/lib/lp_solve", CFLAGS="-O1 -g0",
                       PYTHONDONTWRITEBYTECODE="1")
            env.pop("PYTHONPATH", None)
            self.dst = dst
            self.log = open(os.path.join(self.tmp, "log"), "w+")
            self.proc = subprocess.Popen(
                [sys.executable, "setup.py", "build_ext", "--inplace", "--parallel", "8"], cwd=dst, env=env,
                stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def wait(self):
        if self.proc is not None and self.root is None and not self.error:
            if self.proc.wait():
                self.log.seek(0)
                self.error = self.log.read()
            else:
                self.root = self.dst
        return self.root

    def describe(self):
        return self.mode

    def cleanup(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
