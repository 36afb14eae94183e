"""C35: input files are verified against their declared checksum."""
import builtins
import hashlib as real_hashlib
import io as real_io
import os
import shutil
import tempfile
import pandas
from checks.lib import *
import pywr.hashes as H
from pywr.parameters import load_parameter
from pywr.dataframe_tools import load_dataframe

BOUNDS = ("contents and declared contents of up to 4 arbitrary bytes read in blocks of 1 to 4 bytes, and of one and two default blocks and more with arbitrary "
          "bytes at their ends; 2 algorithms, either letter case, with and without the model's memory of checksums; data loaded from csv files "
          "with up to 2 declared checksums, each right or wrong")
OUTSIDE = ["the digest functions themselves (hashlib)"]
ASSUMPTIONS = ["a digest stands for its algorithm and the bytes fed to it: different contents, and different algorithms, have different digests"]
ALGOS = ["md5", "sha256"]


class Digest:
    """The hexadecimal digest of a sequence of (possibly symbolic) bytes."""

    def __init__(self, env, algo, data, case="lower"):
        self.env, self.algo, self.data, self.case = env, algo, tuple(data), case

    def lower(self):
        return Digest(self.env, self.algo, self.data, "lower")

    def upper(self):
        return Digest(self.env, self.algo, self.data, "upper")

    def strip(self):
        return self

    def __deepcopy__(self, memo):
        return self
    casefold = lower

    def same(self, o):
        if not isinstance(o, Digest) or self.case != o.case or self.algo != o.algo or len(self.data) != len(o.data):
            return False
        return self.env.And(True, *[a == b for a, b in zip(self.data, o.data) if a is not b])

    def __eq__(self, o):
        return self.env.fork(self.same(o))

    def __ne__(self, o):
        return not self.env.fork(self.same(o))
    __hash__ = None

    def __str__(self):
        return "<digest>"


class Bytes:
    """Bytes read from a file."""

    def __init__(self, items):
        self.items = tuple(items)

    def __len__(self):
        return len(self.items)

    def __eq__(self, o):
        return len(o) == len(self) and (not len(o) or self.items == getattr(o, "items", o))

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __add__(self, o):
        return Bytes(self.items + tuple(getattr(o, "items", o)))

    def __radd__(self, o):
        return Bytes(tuple(o) + self.items)

    def __getitem__(self, i):
        return Bytes(self.items[i]) if isinstance(i, slice) else self.items[i]

    def __iter__(self):
        return iter(self.items)


class Hasher:
    def __init__(self, env, name, data=()):
        self.env, self.name, self.fed = env, name, tuple(data)

    def update(self, data):
        self.fed += tuple(data)

    def hexdigest(self):
        return Digest(self.env, self.name, self.fed)

    def copy(self):
        return Hasher(self.env, self.name, self.fed)


class FakeFile:
    def __init__(self, items):
        self.items, self.at = tuple(items), 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.items)
        out = self.items[self.at:self.at + n]
        self.at += len(out)
        return Bytes(out) if out else b""
    read1 = read

    def readinto(self, buf):
        raise NotImplementedError("readinto")

    def seek(self, at, whence=0):
        self.at = at if whence == 0 else (self.at + at if whence == 1 else len(self.items) + at)
        return self.at

    def tell(self):
        return self.at


class World:
    """Files and digests: stand-ins for symbolic contents, the file system and hashlib otherwise."""

    def __init__(self, env):
        self.env, self.files = env, {}

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vp-sum-")
        if self.env.symbolic:
            w, env = self, self.env

            class Hashlib:
                @staticmethod
                def new(name, data=(), **kw):
                    return Hasher(env, name.lower(), data)

                @staticmethod
                def file_digest(fh, digest):
                    h = Hashlib.new(digest) if isinstance(digest, str) else digest()
                    h.update(fh.read())
                    return h
                algorithms_available = algorithms_guaranteed = set(ALGOS)

            for a in ALGOS:
                setattr(Hashlib, a, staticmethod(lambda data=(), name=a, **kw: Hasher(env, name, data)))

            def fake_open(path, mode="r", *a, **kw):
                if path in w.files:
                    if "b" not in mode:
                        raise UnicodeDecodeError("utf-8", b"", 0, 1, "not text")
                    return FakeFile(w.files[path])
                return builtins.open(path, mode, *a, **kw)

            class IO:
                open = staticmethod(fake_open)
                DEFAULT_BUFFER_SIZE = real_io.DEFAULT_BUFFER_SIZE

                def __getattr__(self, name):
                    return getattr(real_io, name)
            self.old = {k: H.__dict__.get(k, World) for k in ("hashlib", "io", "open")}
            H.hashlib, H.io, H.open = Hashlib(), IO(), fake_open
        return self

    def __exit__(self, *a):
        if self.env.symbolic:
            for k, v in self.old.items():
                if v is World:
                    H.__dict__.pop(k, None)
                else:
                    setattr(H, k, v)
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, name, items):
        p = os.path.join(self.path, name)
        if self.env.symbolic:
            self.files[p] = tuple(items)
        else:
            with open(p, "wb") as f:
                f.write(bytes(int(x) for x in items))
        return p

    def digest(self, algo, items, case="lower"):
        if self.env.symbolic:
            return Digest(self.env, algo, items, case)
        d = real_hashlib.new(algo, bytes(int(x) for x in items)).hexdigest()
        return d.upper() if case == "upper" else d


def content(env, name, n):
    return [env.int("%s_%d" % (name, i), 0, 255) for i in range(n)]


def accepted(f):
    """Whether the call returned (True) or reported a mismatch (False)."""
    try:
        f()
    except H.HashMismatchError:
        return False
    return True


def equal(env, a, b):
    return env.And(True, *[x == y for x, y in zip(a, b) if x is not y]) if len(a) == len(b) else False


def h_file(env, n, chunk, case, via):
    """A file is accepted exactly when its content is the declared one."""
    with World(env) as w:
        a = content(env, "a", n)
        f = w.write("f", a)
        k = env.choice("declared length", list(range(max(0, n - 1), n + 2)))
        b = content(env, "b", k)
        ua, ub = env.choice("named algorithm", ALGOS), env.choice("declared algorithm", ALGOS)
        d = w.digest(ub, b, case)
        kw = dict(algorithm=ua)
        if chunk:
            kw["chunk_size"] = chunk
        if via == "model":
            m = model(env, [], nodes=False)
            ok = accepted(lambda: m.check_hash(f, d, **kw))
        elif via == "cache":
            ok = accepted(lambda: H.check_hash(f, d, cache={}, **kw))
        else:
            ok = accepted(lambda: H.check_hash(f, d, **kw))
        e = equal(env, a, b) if ua == ub else False
        env.check(env.Iff(ok, e), "accepted exactly when the content has the declared checksum")


def h_default(env, case):
    """MD5 is the default; a model given no algorithm uses it too."""
    with World(env) as w:
        a, b = content(env, "a", 2), content(env, "b", 2)
        f = w.write("f", a)
        ub = env.choice("declared algorithm", ALGOS)
        d = w.digest(ub, b, case)
        m = model(env, [], nodes=False)
        e = equal(env, a, b) if ub == "md5" else False
        env.check(env.Iff(accepted(lambda: H.check_hash(f, d)), e), "accepted")
        env.check(env.Iff(accepted(lambda: m.check_hash(f, d)), e), "accepted by a model")


def h_blocks(env, size, edge):
    """Files of several default blocks: every byte counts."""
    N = real_io.DEFAULT_BUFFER_SIZE
    n = size * N + edge
    with World(env) as w:
        a = [7] * n
        free = sorted({i for i in (0, N - 1, N, N + 1, 2 * N - 1, 2 * N, n - 1) if 0 <= i < n})
        b = list(a)
        for i in free:
            a[i], b[i] = env.int("a_%d" % i, 0, 255), env.int("b_%d" % i, 0, 255)
        f = w.write("f", a)
        if env.bool("cut"):
            b = b[:-1]
        d = w.digest("sha256", b)
        env.check(env.Iff(accepted(lambda: H.check_hash(f, d, algorithm="sha256")), equal(env, a, b)), "accepted")


def h_memory(env, n):
    """A model remembers checksums by file and algorithm only: later declarations are judged as the first."""
    with World(env) as w:
        fs = [w.write("f%d" % i, content(env, "a%d" % i, n)) for i in range(2)]
        ds = [content(env, "b%d" % i, n) for i in range(2)]
        cs = [[env.int("a%d_%d" % (i, k), 0, 255) for k in range(n)] for i in range(2)]
        m = model(env, [], nodes=False)
        for step in range(3):
            i = env.choice("file", [0, 1]) if step == 1 else 0
            j = env.choice("declared %d" % step, [0, 1]) if step else 0
            u = env.choice("algorithm %d" % step, ALGOS) if step else "md5"
            v = env.choice("declared algorithm", ALGOS) if step == 1 else u
            d = w.digest(v, ds[j], ["lower", "upper", "lower"][step])
            ok = accepted(lambda: m.check_hash(fs[i], d, algorithm=u))
            env.check(env.Iff(ok, equal(env, cs[i], ds[j]) if u == v else False), "accepted exactly when the content has the declared checksum")
            if env.fork(ok):
                continue


TEXT = "Timestamp,x\n" + "".join("2015-01-%02d,%d\n" % (d, d) for d in range(1, 8))


def h_load(env, via, place):
    """Data are read only when every declared checksum is right."""
    with World(env) as w:
        path = os.path.join(w.path, "data.csv")
        with open(path, "w") as f:
            f.write(TEXT)
        raw = TEXT.encode()
        if env.symbolic:
            w.files[path] = tuple(raw)
        other = raw[:-1] + b"9"
        sums, right = {}, True
        for u in env.choice("algorithms", [(), ("md5",), ("sha256",), ("md5", "sha256"), ("sha256", "md5")]):
            ok = env.bool("right " + u)
            if env.fork(ok):
                sums[u] = w.digest(u, raw)
            else:
                sums[u] = w.digest(u, other)
                right = False
        m = model(env, [])
        m.path = w.path
        if place == "again":
            # the same file was verified before, then with what is declared now
            d0 = w.digest("md5", raw)
            m.check_hash(path, d0, algorithm="md5")
        seen = []
        read = pandas.read_csv

        def watch(url, *a, **k):
            seen.append(url)
            return read(url, *a, **k)
        import pywr.dataframe_tools as D
        if env.symbolic:
            old = D.pandas
            D.pandas = type("Pandas", (), {"__getattr__": lambda s, k: watch if k == "read_csv" else getattr(old, k)})()
        try:
            data = {"url": path if place == "absolute" else "data.csv", "index_col": "Timestamp", "parse_dates": True, "column": "x"}
            if sums or via == "parameter":
                data["checksum"] = dict(sums)
            if via == "parameter":
                f = lambda: load_parameter(m, dict(data, type="dataframe"))
            elif via == "document":
                from checks.c30 import doc
                from pywr.core import Model
                data.pop("column")
                f = lambda: Model.load(doc(tables={"t": data}, parameters={"p": {"type": "dataframe", "table": "t", "column": "x"}}), path=w.path)
            elif via == "hdf":
                # verified before anything else is done with the file
                f = lambda: load_parameter(m, {"type": "tablesarray", "url": data["url"], "node": "x", "checksum": dict(sums)})
            else:
                f = lambda: load_dataframe(m, dict(data))
            ok = accepted(f)
        finally:
            if env.symbolic:
                D.pandas = old
        env.check(ok == right, "loaded exactly when every declared checksum is right")
        if env.symbolic and via != "hdf":
            env.check((len(seen) > 0) == right, "read only when every declared checksum is right")


def harnesses(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 5 if not big else 7):
        for chunk in (None, 1, 2, 3) + ((4,) if n > 2 else ()):
            out.append(task(h_file, params=dict(n=n, chunk=chunk, case="lower" if chunk else "upper", via="plain")))
    out += sweep(h_file, over=dict(n=[0, 2, 3], chunk=[None, 2], case=["lower", "upper"], via=["model", "cache"]))
    out += sweep(h_default, over=dict(case=["lower", "upper"]))
    out += sweep(h_blocks, over=dict(size=[1, 2] + ([3] if big else []), edge=[-1, 0, 1]))
    out += sweep(h_memory, over=dict(n=[1] + ([2] if big else [])))
    out += sweep(h_load, over=dict(via=["frame", "parameter"], place=["absolute", "relative", "again"]))
    out += sweep(h_load, over=dict(via=["document", "hdf"], place=["absolute", "relative"]))
    return out
