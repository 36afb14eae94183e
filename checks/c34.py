"""C34: tables and files written during a run hold exactly what was recorded, in step order and under the declared scenarios."""
import csv
import gzip
import bz2
import os
import warnings
import numpy as np
import pandas as pd
import tables
from checks.lib import *
from checks.lpnet import LPRun, Net
from checks.c30 import Folder
from pywr.nodes import *
from pywr.nodes import PiecewiseLink, AggregatedNode, VirtualStorage, AggregatedStorage
from pywr.parameters import ConstantParameter
from pywr.recorders import TablesRecorder, CSVRecorder, Recorder, load_recorder
from pywr.recorders._tables_recorders import TablesRecorder2
from pywr.model import MultiModel

BOUNDS = ("up to 7 nodes of each kind, 3 parameters, arbitrary flows, limits, values and indices over up to 5 time-steps; any scenario sizes, slices and combinations out of 12; "
          "buffers of 1 to 7 time-steps and of the default size; runs, repeated runs, runs that end early or start part way, two models run together")
OUTSIDE = ["the file format (PyTables, csv, gzip and bz2 are trusted to return what was written)", "the time of day of time-steps shorter than a day in a time table",
           "one node saved twice"]
ASSUMPTIONS = ["PyTables stores an array element by element (a stand-in that keeps the elements is compared with PyTables in every replayed run)"]


# ------------------------------------------------------------------ stand-ins for PyTables
class Attrs:
    def __setitem__(self, k, v):
        setattr(self, k, v)

    def __getitem__(self, k):
        return getattr(self, k)


class Group:
    def __init__(self, file, path):
        self.file, self.path = file, path
        self._v_attrs = Attrs()
        self._v_name = path.rsplit("/", 1)[-1] or "/"
        self._v_pathname = path or "/"

    def __getattr__(self, name):
        try:
            return self.__dict__["file"].tree[self.__dict__["path"] + "/" + name]
        except KeyError:
            raise AttributeError(name)


class Array:
    def __init__(self, file, path, shape, atom, obj):
        self.file, self.path = file, path
        self._v_attrs = self.attrs = Attrs()
        self._v_name = self.name = path.rsplit("/", 1)[1]
        if obj is None:
            self.a, self.shape = np.zeros(tuple(shape)), tuple(shape)
            if isinstance(atom, tables.Int32Atom):
                self.a = np.zeros(tuple(shape), dtype=np.int32)
        else:
            self.a = np.array(obj)
            self.shape = self.a.shape

    @property
    def _v_parent(self):
        return self.file.node(self.path.rsplit("/", 1)[0])

    def read(self):
        return self.a.copy()

    def __setitem__(self, ix, v):
        self.a[ix] = v

    def __getitem__(self, ix):
        return self.a[ix]


class Row:
    def __init__(self, table):
        self.table, self.d = table, {}

    def __setitem__(self, k, v):
        if k not in self.table.names:
            raise KeyError(k)
        if self.table.kinds[k] == "int":
            if isinstance(v, (bytes, str)) or v is None:
                raise TypeError("invalid type for column %s" % k)
        elif not isinstance(v, bytes):
            raise TypeError("invalid type for column %s" % k)
        self.d[k] = v

    def append(self):
        self.table.rows.append(dict(self.d))
        self.d = {}


class Table(tables.Table):
    def __init__(self, file, path, description):
        s = self.__dict__
        s["names"] = list(description)
        s["kinds"] = {k: "int" if isinstance(v, tables.Int64Col) else "text" for k, v in description.items()}
        s["rows"], s["file"] = [], file
        s["_v_name"] = path.rsplit("/", 1)[1]
        s["_row"] = Row(self)

    row = property(lambda s: s.__dict__["_row"])
    nrows = property(lambda s: len(s.__dict__["rows"]))
    shape = property(lambda s: (len(s.__dict__["rows"]),))

    def col(self, k):
        return np.array([r[k] for r in self.__dict__["rows"]])

    def __getitem__(self, i):
        return self.__dict__["rows"][i]

    def __len__(self):
        return self.nrows

    def flush(self):
        pass

    def __del__(self):
        pass

    def __str__(self):
        return "table"

    __repr__ = __str__


class File(tables.File):
    """An open file that keeps its nodes in memory."""

    def __init__(self):
        self.isopen, self.filename, self.mode = 1, "fake.h5", "w"
        self.tree = {}
        self.fakeroot = Group(self, "")
        self.root = self.fakeroot

    def node(self, path):
        path = path.rstrip("/")
        if path in self.tree:
            return self.tree[path]
        if path == "" or any(k.startswith(path + "/") for k in self.tree):
            return self.tree.setdefault(path, Group(self, path)) if path else self.fakeroot
        raise tables.NoSuchNodeError(path)

    def put(self, where, name, o):
        path = where.rstrip("/") + "/" + name
        if path in self.tree:
            raise tables.NodeError(path)
        self.tree[path] = o
        return path

    def create_carray(self, where, name, atom=None, shape=None, title="", filters=None, chunkshape=None, byteorder=None, createparents=False, obj=None, track_times=True):
        path = where.rstrip("/") + "/" + name
        o = Array(self, path, shape, atom, obj)
        self.put(where, name, o)
        return o

    def create_table(self, where, name, description=None, title="", filters=None, expectedrows=10000, chunkshape=None, byteorder=None, createparents=False, obj=None, track_times=True):
        o = Table(self, where.rstrip("/") + "/" + name, description)
        self.put(where, name, o)
        return o

    def get_node(self, where, name=None, classname=None):
        return self.node(where if name is None else where.rstrip("/") + "/" + name)

    def remove_node(self, where, name=None, recursive=False):
        path = where if name is None else where.rstrip("/") + "/" + name
        self.node(path)
        del self.tree[path]

    def walk_nodes(self, where="/", classname=None):
        for k in list(self.tree):
            if isinstance(self.tree[k], Array):
                yield self.tree[k]

    def __contains__(self, path):
        try:
            self.node(path)
        except tables.NoSuchNodeError:
            return False
        return True

    def __str__(self):
        return "fake.h5"

    __repr__ = __str__

    def close(self):
        self.isopen = 0

    def __del__(self):
        pass


class H5:
    """An open file: a stand-in for symbolic values, PyTables otherwise."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        warnings.simplefilter("ignore")
        if self.env.symbolic:
            self.f = File()
        else:
            self.f = tables.open_file("vp-c34-%d.h5" % id(self), "w", driver="H5FD_CORE", driver_core_backing_store=0)
        return self.f

    def __exit__(self, *a):
        self.f.close()


# ------------------------------------------------------------------ what is to be recorded
class Spy(Recorder):
    """Keeps what there is to record after each time-step."""

    def __init__(self, model, items):
        super().__init__(model, name="spy")
        self.items, self.log = items, {}
        for i in items.values():
            if isinstance(i, Parameter):
                self.children.add(i)

    def after(self):
        t = self.model.timestepper.current.index
        n = len(self.model.scenarios.combinations)
        for name, i in self.items.items():
            d = self.log.setdefault(name, {})
            sis = self.model.scenarios.combinations
            if isinstance(i, IndexParameter):
                d[t] = {"": [i.get_index(si) for si in sis]}
            elif isinstance(i, Parameter):
                d[t] = {"": [i.get_value(si) for si in sis]}
            elif hasattr(i, "volume"):
                lim = self.items["st"] if isinstance(i, AggregatedStorage) else i
                d[t] = {"": [i.volume[s] for s in range(n)], "min_volume": [lim.get_min_volume(si) for si in sis], "max_volume": [lim.get_max_volume(si) for si in sis]}
            else:
                d[t] = {"": [i.flow[s] for s in range(n)], "min_flow": [i.get_min_flow(si) for si in sis], "max_flow": [i.get_max_flow(si) for si in sis]}


SCEN = {"none": (), "one": (2,), "two": (2, 3), "slice": (3, 2), "slice_open": (3, 2), "slice_step": (4, 2), "slice_back": (3, 2), "combos": (2, 3), "combo": (3, 2)}
SLICES = {"slice": [slice(1, 3), None], "slice_open": [slice(1, None), slice(None, 1)], "slice_step": [slice(0, 4, 2), None], "slice_back": [slice(None, None, -1), None]}
COMBOS = {"combos": [[1, 2], [0, 0], [1, 1]], "combo": [[2, 1]]}


def net(env, scen, full=True, start="2015-01-30", end="2015-02-03", name=None, own=True):
    m = Model(start=start, end=end, timestep=1)
    for i, n in enumerate(SCEN[scen]):
        Scenario(m, "AB"[i], size=n, slice=SLICES.get(scen, [None] * 2)[i])
    if scen in COMBOS:
        m.scenarios.user_combinations = COMBOS[scen]
    a = Input(m, "in", max_flow=Var(m, env, "inmax", 50, 90), min_flow=env.real("inmin", 0, 1))
    l = Link(m, "link")
    o = Output(m, "xy", max_flow=env.real("outmax", 50, 90))
    a.connect(l)
    l.connect(o)
    items = {"in": a, "link": l, "xy": o}
    if full:
        st = Storage(m, "st", max_volume=100.0, min_volume=env.real("stmin", 0, 1), initial_volume=env.real("v0", 20, 80))
        l.connect(st)
        st.connect(o)
        pl = PiecewiseLink(m, name="pl", nsteps=2, max_flows=[Var(m, env, "m0", 0, 9), env.real("m1", 0, 9)], costs=[1.0, 2.0])
        a.connect(pl)
        pl.connect(o)
        ag = AggregatedNode(m, "agg", [a, l])
        ag.max_flow = env.real("aggmax", 50, 90)
        vs = VirtualStorage(m, "vs", [a], max_volume=1000.0, initial_volume=900.0)
        s2 = AggregatedStorage(m, "as", [st])
        items.update({"st": st, "pl": pl, "agg": ag, "vs": vs, "as": s2})
    m.solver = FreeFlow(flows(env, ["in", "link", "xy", "st", "pl"], 0, 3))
    return m, items


def pars(env, m):
    p = Var(m, env, "pq", -9, 9)
    ix = IndexVar(m, env, "ix", 5)
    sl = ConstantParameter(m, env.real("sl", -9, 9), name="a/b")
    return {"pq": p, "ix": ix, "a/b": sl}


def layout(scen):
    """(shape of the scenarios, the ensemble of each scenario in each column)"""
    import itertools
    sizes = SCEN[scen]
    if scen in COMBOS:
        return (len(COMBOS[scen]),), [tuple(c) for c in COMBOS[scen]]
    if not sizes:
        return (1,), [(0,)]
    r = [list(range(n))[s] if s else list(range(n)) for n, s in zip(sizes, SLICES.get(scen, [None] * 2))]
    return tuple(len(x) for x in r), list(itertools.product(*r))


def flat(a, t):
    return list(np.array(a[t]).reshape(-1)) if not hasattr(a[t], "reshape") else list(a[t].reshape(-1))


def verify(env, f, cls, spy, rows, shape, n, where="", known=None):
    """The arrays of every recorded item hold what was recorded at these steps."""
    for name, per in spy.log.items():
        item = spy.items[name]
        path = (known or {}).get(name, where + "/" + name.replace("/", "_"))
        isnode = not isinstance(item, Parameter)
        if cls is TablesRecorder:
            arrs = {"": f.get_node(path)}
        else:
            g = f.get_node(path)
            if isnode:
                v = "volume" if hasattr(item, "volume") else "flow"
                arrs = {"": getattr(g, v), "min_" + v: getattr(g, "min_" + v), "max_" + v: getattr(g, "max_" + v)}
            else:
                arrs = {"": getattr(g, "parameter_index" if isinstance(item, IndexParameter) else "parameter")}
        for key, arr in arrs.items():
            env.check(tuple(arr.shape) == (n,) + tuple(shape), "shape of %s" % name)
            a = arr.read()
            for t in rows:
                got = list(a[t].reshape(-1))
                want = per[t][key]
                env.check(len(got) == len(want), "columns of %s" % name)
                for s in range(len(want)):
                    env.eq(got[s], want[s], "%s %s" % (name, key or "recorded value"))
        attr = arrs[""]._v_attrs
        kind = "PYWR_TYPE"
        env.check(attr[kind] == type(item).__name__, "type of %s" % name)


def timetable(env, f, rows, start="2015-01-30", time="/time"):
    t = f.get_node(time)
    d = [pd.Timestamp(start) + pd.Timedelta(days=i) for i in rows]
    env.check([int(x) for x in t.col("index")] == list(rows), "index of the time table")
    for k in ("year", "month", "day"):
        env.check([int(x) for x in t.col(k)] == [getattr(x, k) for x in d], "%s of the time table" % k)


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def scenarios(env, f, cls, scen, group=""):
    sizes, (shape, cols) = SCEN[scen], layout(scen)
    t = f.get_node(group + "/scenarios")
    env.check([text(x) for x in t.col("name")] == ["A", "B"][:len(sizes)] and [int(x) for x in t.col("size")] == list(sizes), "scenario table")
    root = group if cls is TablesRecorder else ""
    has = root + "/scenario_combinations" in f
    env.check(has == (scen in COMBOS), "combinations are saved when they are given")
    if has:
        c = f.get_node(root + "/scenario_combinations")
        got = [tuple(int(c[i][n]) for n in ("A", "B")) for i in range(len(cols))] if cls is TablesRecorder else [tuple(int(y) for y in x) for x in c.read()]
        env.check(got == cols, "combinations")
        if cls is TablesRecorder2:
            env.check(list(c.attrs.columns) == ["A", "B"], "scenarios of the combinations")
    has = group + "/scenario_slices" in f
    env.check(has == (scen in SLICES), "slices are saved when they are given")
    if has:
        c = f.get_node(group + "/scenario_slices")
        for i, nm in enumerate(text(x) for x in c.col("name")):
            k = "AB".index(nm)
            r = range(int(c.col("start")[i]), int(c.col("stop")[i]), int(c.col("step")[i]))
            env.check(list(r) == list(range(sizes[k]))[SLICES[scen][k]], "slice of %s" % nm)
        env.check(len(c.col("name")) == sum(1 for s in SLICES[scen] if s), "number of slices")
    if cls is TablesRecorder2 and sizes:
        e = f.get_node("/scenario_ensemble_names").read()
        env.check([tuple(text(y) for y in x) for x in e] == [tuple(str(y) for y in x) for x in cols], "names of the ensembles")


def frames(env, f, cls, scen, spy, rows, start="2015-01-30", time="/time", scens="/scenarios"):
    """The dataframes made from the file have a row per time-step and a column per combination, and hold the recorded values."""
    sizes, (shape, cols) = SCEN[scen], layout(scen)
    got = dict(cls.generate_dataframes(f, time=time, scenarios=scens))
    for name, per in spy.log.items():
        item = spy.items[name]
        nm = name.replace("/", "_")
        keys = {nm: ""}
        if cls is TablesRecorder2:
            v = "volume" if hasattr(item, "volume") else "flow"
            keys = {nm + "." + v: "", nm + ".min_" + v: "min_" + v, nm + ".max_" + v: "max_" + v} if not isinstance(item, Parameter) else \
                {nm + (".parameter_index" if isinstance(item, IndexParameter) else ".parameter"): ""}
        for k, key in keys.items():
            df = got[k]
            env.check(df.shape == (len(rows), len(cols)), "shape of the frame of %s" % name)
            if time:
                env.check(list(df.index) == [pd.Timestamp(start) + pd.Timedelta(days=i) for i in rows], "dates of the frame")
            if scens:
                env.check([tuple(int(x) for x in c) for c in df.columns] == cols, "columns of the frame")
                if sizes:
                    env.check(list(df.columns.names) == ["A", "B"][:len(sizes)], "scenarios of the frame")
            for t in rows:
                for s in range(len(cols)):
                    env.eq(df.iloc[t, s], per[t][key][s], "value in the frame of %s" % k)


def h_run(env, cls, scen, buffer=None, full=True, runs=1, nodes=None, frame=False, places=False):
    """A file holds what was recorded in the run (the last one when there are several)."""
    m, items = net(env, scen, full)
    ps = pars(env, m)
    items = dict(items)
    kw = {} if buffer is None else dict(buffer_timesteps=buffer) if buffer else dict(buffer_size=0)
    known, where = {}, ""
    if nodes == "names":
        items = {k: items[k] for k in ("xy", "in") + (("st",) if full else ())}
        kw["nodes"] = list(items)
    elif nodes == "objects":
        items = {k: items[k] for k in ("xy", "in") + (("st",) if full else ())}
        kw["nodes"] = [items["xy"], "in"] + ([items["st"]] if full else [])
    elif nodes == "places":
        items = {k: items[k] for k in ("xy", "in", "link")}
        kw["nodes"] = [("/deep/er/one", "xy"), ["/two", items["in"]], "link"]
        kw["where"], kw["time"], kw["scenarios"] = "/base", "/meta/when", "/meta/scenarios"
        known, where = {"xy": "/deep/er/one", "in": "/two", "pq": "/three/p"}, "/base"
    kw["parameters"] = [("/three/p", ps["pq"]) if nodes == "places" else "pq" if nodes == "names" else ps["pq"], ps["ix"], ps["a/b"]]
    spy = Spy(m, {**items, **ps})
    shape, cols = layout(scen)
    group = "/meta" if nodes == "places" else ""
    with H5(env) as f:
        cls(m, f, **kw)
        for i in range(runs):
            m.run()
        verify(env, f, cls, spy, range(5), shape, 5, where=where, known=known)
        timetable(env, f, range(5), time="/meta/when" if nodes == "places" else "/time")
        scenarios(env, f, cls, scen, group)
        if frame:
            frames(env, f, cls, scen, spy, range(5))


def h_optional(env, cls):
    """Without time and scenario tables there are none, and the values are the same."""
    m, items = net(env, "one", False)
    spy = Spy(m, items)
    with H5(env) as f:
        cls(m, f, time=None, scenarios=None)
        m.run()
        verify(env, f, cls, spy, range(5), (2,), 5)
        env.check("/time" not in f and "/scenarios" not in f, "no tables")
        frames(env, f, cls, "one", spy, range(5), time=None, scens=None)


def h_part(env, cls, buffer, how, k):
    """A run that ends early or starts part way: every step that was run is in the file."""
    m, items = net(env, "one", False)
    spy = Spy(m, items)
    kw = {} if buffer is None else dict(buffer_timesteps=buffer)
    with H5(env) as f:
        cls(m, f, **kw)
        m.setup()
        if how == "early":
            for i in range(k):
                m.step()
            m.finish()
            rows = list(range(k))
        elif how == "late":
            m.reset(start=pd.Timestamp("2015-01-30") + pd.Timedelta(days=k))
            while True:
                try:
                    m.step()
                except StopIteration:
                    break
            m.finish()
            rows = list(range(k, 5))
        elif how == "fail":
            def fail(node, t, s):
                if t == k:
                    raise RuntimeError("no solution")
                return base(node, t, s)
            base, m.solver.fn = m.solver.fn, fail
            try:
                m.run()
            except RuntimeError:
                pass
            rows = list(range(k))
        else:
            # twice: first some steps, then all of them again
            for i in range(k):
                m.step()
            m.finish()
            m.run()
            rows = list(range(5))
        spy.log = spy.log or {n: {} for n in items}
        verify(env, f, cls, spy, rows, (2,), 5)
        timetable(env, f, rows)


def h_multi(env, cls, buffer, n=5):
    """Models that are run together each have all their steps in their file."""
    mm = MultiModel()
    spies, hs, ms = [], [], []
    for k in range(2):
        m, items = net(env, "none", False, end=str((pd.Timestamp("2015-01-30") + pd.Timedelta(days=n - 1)).date()))
        mm.add_model("m%d" % k, m)
        base = m.solver.fn
        m.solver.fn = lambda node, t, s, k=k: env.real("flow%d_%s_%d" % (k, node.name, t), 0, 3)
        ms.append(m)
        spies.append(Spy(m, items))
        hs.append(H5(env))
    fs = [h.__enter__() for h in hs]
    for m, f in zip(ms, fs):
        cls(m, f, **({} if buffer is None else dict(buffer_timesteps=buffer)))
    mm.setup()
    mm.run()
    for f, s in zip(fs, spies):
        verify(env, f, cls, s, range(n), (1,), n)
        timetable(env, f, range(n))
    for h in hs:
        h.__exit__()


# ------------------------------------------------------------------ routes
class Routed(FreeFlow):
    """A solver with given routes and arbitrary route flows."""

    def __init__(self, env, m, names, n):
        super().__init__(lambda node, t, s: None)
        self.env, self.names, self.n = env, names, n
        self.save_routes_flows = False

    def reset(self):
        m = self.model
        N = m.nodes
        self.routes = [[x if not isinstance(x, str) else N[x] for x in r] for r in self.names(N)]

    def setup(self, model):
        self.model = model
        self.reset()

    def solve(self, model):
        t = model.timestep.index
        self.routes_flows_array = np.array([[self.env.real("r%d_%d_%d" % (r, t, s), 0, 9) for r in range(len(self.routes))] for s in range(self.n)])


def h_routes(env, cls, scen, where="/", table="/routes", runs=1):
    """The flow of each route is saved per time-step and scenario, and the route's ends are those of its nodes."""
    m, items = net(env, scen)
    shape, cols = layout(scen)
    m.solver = Routed(env, m, lambda N: [[N["in"], N["link"], N["xy"]], [N["in"], N["link"], N["st"].outputs[0]], [N["st"].inputs[0], N["xy"]], [N["in"], N["pl"].input, N["xy"]]], len(cols))
    kw = {} if table == "/routes" else dict(routes=table)
    with H5(env) as f:
        rec = cls(m, f, nodes=["in"], where=where, routes_flows="flows", **kw)
        env.check(m.solver.save_routes_flows, "the solver is asked for the flows of the routes")
        for i in range(runs):
            m.run()
        a = f.get_node(where, "flows").read()
        env.check(tuple(a.shape) == (5, 4) + shape, "shape of the route flows")
        for t in range(5):
            for r in range(4):
                got = list(a[t][r].reshape(-1))
                for s in range(len(cols)):
                    env.eq(got[s], env.real("r%d_%d_%d" % (r, t, s), 0, 9), "flow of a route")
        if table:
            q = f.get_node(table)
            env.check([text(x) for x in q.col("start")] == ["in", "in", "st", "in"], "starts of the routes")
            env.check([text(x) for x in q.col("end")] == ["xy", "st", "xy", "xy"], "ends of the routes")
        else:
            env.check("/routes" not in f, "no table of routes")
        got = dict(cls.generate_dataframes(f))
        d = got["flows" if cls is TablesRecorder else ("/.flows" if where == "/" else where.strip("/") + ".flows")]
        env.check(d.shape == (5, 4 * len(cols)), "frame of the route flows")
        for t in range(5):
            for r in range(4):
                for s in range(len(cols)):
                    env.eq(d.iloc[t, r * len(cols) + s], env.real("r%d_%d_%d" % (r, t, s), 0, 9), "flow of a route in the frame")


NETR = Net({"a": ("input", {"max_flow": 20.0}), "b": ("input", {"max_flow": 20.0}), "l": ("link", {}), "x": ("output", {"max_flow": 20.0}), "y": ("output", {"max_flow": 20.0}),
            "st": ("storage", {"max_volume": 100.0, "initial_volume": 50.0})},
           [("a", "l"), ("b", "l"), ("l", "x"), ("l", "y"), ("b", "y"), ("l", "st"), ("st", "x")])


def h_solver_routes(env, cls):
    """The saved flows of the routes through a node add up to the flow of the node."""
    run = LPRun(env, NETR, "route", scenarios=(2,), nsteps=2)
    m = run.m
    with H5(env) as f:
        rec = cls(m, f, nodes=["a", "b", "l", "x", "y"], routes_flows="flows")
        want = {}

        def answer(t, s, lp):
            return [None] + [env.real("x%d_%d_%d" % (j, t, s), 0, 5) for j in range(lp.ncols)]
        for t in run.go(answer):
            routes = [[n.parent or n for n in r] for r in m.solver.routes]
            for s in range(2):
                for n in ("a", "b", "l", "x", "y"):
                    want[t, s, n] = run.flow(n, s)
        m.finish()
        a = f.get_node("/flows").read()
        q = f.get_node("/routes")
        env.check([text(x) for x in q.col("start")] == [r[0].name for r in routes] and [text(x) for x in q.col("end")] == [r[-1].name for r in routes], "ends of the routes")
        env.check(tuple(a.shape) == (2, len(routes), 2), "shape of the route flows")
        for (t, s, n), w in want.items():
            total = 0.0
            for k, r in enumerate(routes):
                if any(x.name == n for x in r):
                    total = total + a[t][k][s]
            env.eq(total, w, "flow through %s" % n)


class Opener:
    """Stands for the tables module in a function that opens a file by its name."""

    def __init__(self, f):
        self.f = f

    def open_file(self, name, mode="r"):
        return self

    def __enter__(self):
        return self

    def get_node(self, where, name=None):
        return self.f.get_node(where, name).read() if name else self.f.get_node(where)

    def __exit__(self, *a):
        pass


def h_sankey(env, scens, time=None, scen=None, tagg="mean", sagg="mean", threshold=False, circular=False, rename=False, callback=False):
    """The link between two nodes carries the aggregated flow of all routes between them."""
    from pywr.notebook import sankey
    ends = [("a", "x"), ("a", "y"), ("b", "x"), ("a", "x"), ("x", "x")]
    T, R = 2, len(ends)
    v = [[[env.real("f_%d_%d_%d" % (t, r, s), 0, 9) for s in range(scens)] for r in range(R)] for t in range(T)]
    F = {"mean": lambda x: sum(x[1:], x[0]) / len(x), "sum": lambda x: sum(x[1:], x[0]), "max": lambda x: env.max(*x) if len(x) > 1 else x[0]}
    N = {"mean": np.mean, "sum": np.sum, "max": np.max}
    thr = env.real("threshold", 0, 9) if threshold else 0.0
    with H5(env) as f:
        c = f.create_carray("/", "flows", tables.Float64Atom(), (T, R, scens))
        for t in range(T):
            c[t, ...] = np.array(v[t])
        q = f.create_table("/", "routes", description={"start": tables.StringCol(16), "end": tables.StringCol(16)})
        e = q.row
        for a, b in ends:
            e["start"], e["end"] = a.encode(), b.encode()
            e.append()
        q.flush()
        kw = {}
        if time is not None:
            kw["time_slice"] = time
        if scen is not None:
            kw["scenario_slice"] = scen
        if tagg != "mean":
            kw["time_agg_func"] = N[tagg]
        if sagg != "mean":
            kw["scenario_agg_func"] = N[sagg]
        if threshold:
            kw["flow_threshold"] = thr
        if circular:
            kw["ignore_circular"] = True
        if rename:
            kw["rename_func"] = lambda n, first: n.upper() if first else n + "!"
        if callback:
            kw["callback_func"] = lambda a, b, flow: None if b == "y" else (a, b)
        real, sankey.tables = sankey.tables, Opener(f)
        try:
            if not env.symbolic:
                q.shape
            links = sankey.routes_to_sankey_links("x.h5", "flows", **kw)
        finally:
            sankey.tables = real
    ts = range(T) if time is None else [time] if isinstance(time, int) else range(T)[time]
    ss = range(scens) if scen is None else [scen] if isinstance(scen, int) else range(scens)[scen]
    want = {}
    for r, (a, b) in enumerate(ends):
        if (circular and a == b) or (callback and b == "y"):
            continue
        k = (a.upper(), b + "!") if rename else (a, b)
        per = [F[tagg]([v[t][r][s] for t in ts]) if not isinstance(time, int) else v[time][r][s] for s in ss]
        x = F[sagg](per) if not isinstance(scen, int) else per[0]
        want[k] = want[k] + x if k in want else x
    got = {(l["source"], l["target"]): l["value"] for l in links}
    env.check(len(got) == len(links) and set(got) <= set(want), "a link per pair of nodes")
    for k, w in want.items():
        if k in got:
            env.eq(got[k], w, "flow of a link")
            env.check(w >= thr - 1e-9, "a link is at or above the threshold")
        else:
            env.check(w <= thr + 1e-9, "a link is left out below the threshold")


# ------------------------------------------------------------------ CSV
def h_csv(env, scen, index, nodes=None, complib=None, doc=False, delimiter=None, runs=1):
    """A line per time-step with the date and the flow or volume of every node in the given scenario."""
    m, items = net(env, scen)
    order = sorted(items)
    kw = dict(scenario_index=index)
    if nodes == "names":
        order = ["xy", "st", "in"]
        kw["nodes"] = list(order)
    elif nodes == "objects":
        order = ["st", "xy"]
        kw["nodes"] = [items[n] for n in order]
    if complib:
        kw["complib"] = complib
    if delimiter:
        kw["csv_kwargs"] = {"delimiter": delimiter}
    spy = Spy(m, items)
    with Folder() as fo:
        path = os.path.join(fo.path, "out.csv")
        if doc:
            r = load_recorder(m, dict(type="csv", url=path, **kw))
        else:
            r = CSVRecorder(m, path, **kw)
        for i in range(runs):
            m.run()
        op = {None: open, "gzip": gzip.open, "bz2": bz2.open, "bzip2": bz2.open}[complib]
        with op(path, "rt", newline="", encoding="utf-8") as f:
            rows = list(csv.reader(f, **(dict(delimiter=delimiter) if delimiter else {})))
    if nodes is None:
        order = rows[0][1:]
        env.check(set(order) >= set(items) and order == sorted(order), "columns")
    env.check(rows[0] == ["Datetime"] + order, "header")
    env.check(len(rows) == 6, "a line per time-step")
    for t, row in enumerate(rows[1:]):
        env.check(pd.Timestamp(row[0]) == pd.Timestamp("2015-01-30") + pd.Timedelta(days=t), "date")
        env.check(len(row) == len(order) + 1, "a value per node")
        for n, x in zip(order, row[1:]):
            if n in items:
                env.eq(env.parse(x), spy.log[n][t][""][index], "value of %s" % n)


def h_reject(env):
    m, items = net(env, "none", False)
    for cls in (TablesRecorder, TablesRecorder2):
        env.raises(ValueError, lambda: cls(m, "x.h5", parameters=[ConstantParameter(m, 1.0)], name="r%d" % (cls is TablesRecorder)), "a parameter without a name")
    m, items = net(env, "none", False)
    with Folder() as fo:
        CSVRecorder(m, os.path.join(fo.path, "x.csv"), complib="zip")
        env.raises(KeyError, lambda: m.run(), "an unknown compression")
    for cls in (TablesRecorder, TablesRecorder2):
        m, items = net(env, "none", False)
        with H5(env) as f:
            cls(m, f, nodes=["nobody"])
            env.raises(KeyError, lambda: m.setup(), "an unknown node")
        m, items = net(env, "none", False)
        ps = pars(env, m)
        with H5(env) as f:
            r = cls(m, f, parameters=[ps["pq"], ps["ix"]])
            r._remove_parameter("pq")
            env.raises(KeyError, lambda: r._remove_parameter(ps["pq"]), "a parameter that is not recorded")
            m.run()
            env.check("/pq" not in f and "/ix" in f, "a parameter that is no longer recorded")


def harnesses(tier):
    q = tier == "quick"
    T1, T2 = TablesRecorder, TablesRecorder2
    SK = [dict(scens=2), dict(scens=1), dict(scens=2, time=1), dict(scens=2, scen=1), dict(scens=3, scen=slice(1, 3)), dict(scens=2, time=slice(0, 1)), dict(scens=2, tagg="sum"),
          dict(scens=2, sagg="sum"), dict(scens=2, sagg="max"), dict(scens=2, scen=slice(0, 2), sagg="max", tagg="sum"), dict(scens=1, threshold=True), dict(scens=2, circular=True), dict(scens=2, rename=True), dict(scens=2, callback=True)]
    out = [task(h_reject)] + [task(h_sankey, params=k) for k in SK]
    for cls in (T1, T2):
        for scen in SCEN:
            out.append(task(h_run, params=dict(cls=cls, scen=scen, full=scen in ("one", "combos") or not q, frame=True)))
        for nodes in ("names", "objects", "places"):
            out.append(task(h_run, params=dict(cls=cls, scen="one" if nodes != "places" else "combos", nodes=nodes)))
        out.append(task(h_run, params=dict(cls=cls, scen="slice", nodes="places")))
        out.append(task(h_run, params=dict(cls=cls, scen="one", runs=2)))
        out.append(task(h_optional, params=dict(cls=cls)))
        for scen in ("none", "one", "two", "combos"):
            out.append(task(h_routes, params=dict(cls=cls, scen=scen)))
        out.append(task(h_routes, params=dict(cls=cls, scen="one", where="/deep", table="/some/where", runs=2)))
        out.append(task(h_routes, params=dict(cls=cls, scen="one", table=None)))
        out.append(task(h_solver_routes, params=dict(cls=cls)))
        bs = (None,) if cls is T1 else (None, 1, 2, 3, 4) if q else (None, 1, 2, 3, 4, 5, 7)
        for b in bs:
            for how, ks in (("early", (1, 2, 3, 4)), ("late", (1, 2, 3)), ("fail", (0, 1, 3)), ("again", (1, 2))):
                for k in ks:
                    out.append(task(h_part, params=dict(cls=cls, buffer=b, how=how, k=k)))
            out.append(task(h_multi, params=dict(cls=cls, buffer=b)))
            out.append(task(h_multi, params=dict(cls=cls, buffer=b, n=4)))
    for b in (0, 1, 2, 3, 4, 5, 7):
        out.append(task(h_run, params=dict(cls=T2, scen="two" if b in (2, 3) else "one", buffer=b, full=b == 2)))
    out.append(task(h_run, params=dict(cls=T2, scen="one", buffer=3, runs=2)))
    for scen, ix in (("none", 0), ("one", 0), ("one", 1), ("two", 4), ("combos", 2), ("slice", 1)):
        out.append(task(h_csv, params=dict(scen=scen, index=ix)))
    out += [task(h_csv, params=dict(scen="one", index=1, nodes="names")), task(h_csv, params=dict(scen="one", index=1, nodes="objects", runs=2)),
            task(h_csv, params=dict(scen="one", index=0, nodes="names", delimiter=";")), task(h_csv, params=dict(scen="one", index=1, doc=True)),
            task(h_csv, params=dict(scen="one", index=1, doc=True, nodes="names", delimiter="|"))]
    out += [task(h_csv, params=dict(scen="one", index=1, complib=c)) for c in ("gzip", "bz2", "bzip2")]
    return out
