"""C16: threshold parameters switch exactly at their threshold."""
from datetime import timedelta
import numpy as np
from checks.lib import *
from pywr.parameters import *
from pywr.parameters import load_parameter
from pywr.parameters._thresholds import *
from pywr.parameters._thresholds import CurrentYearThresholdParameter, CurrentOrdinalDayThresholdParameter, RecorderThresholdParameter, \
    NodeThresholdParameter, StorageThresholdParameter, ParameterThresholdParameter, MultipleThresholdIndexParameter, \
    MultipleThresholdParameterIndexParameter
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayParameterRecorder

BOUNDS = "3 time-steps (2 for multiple thresholds), 2 scenarios, up to 3 thresholds that vary by time-step and scenario; any day of 1895..2105"
OUTSIDE = []
PRED = ["LT", ">", "eq", "<=", "GE", None]


def cmp(env, pred, x, th):
    p = (pred or "LT").upper()
    return {"LT": lambda: x < th, "<": lambda: x < th, "GT": lambda: x > th, ">": lambda: x > th, "EQ": lambda: x == th, "=": lambda: x == th,
            "LE": lambda: x <= th, "<=": lambda: x <= th, "GE": lambda: x >= th, ">=": lambda: x >= th}[p]()


def verify(env, m, p, pred, xs, th, ratchet, values, n=3, first=None, between=None):
    """p compares xs(t, s) with th(t, s); once switched a ratchet stays."""
    m.setup()
    for round in range(2):
        hit = [False] * nscen(m)
        for t in range(n):
            m.step()
            for si in m.scenarios.combinations:
                s = si.global_id
                if t == 0 and first is not None:
                    e = first == 1
                else:
                    e = cmp(env, pred, xs(t, s), th(t, s))
                    if ratchet:
                        e = env.Or(e, hit[s])
                        hit[s] = e
                i = env.ite(e, 1, 0)
                env.eq(p.get_index(si), i, "index" if round == 0 else "index in the second run")
                if values is not None:
                    env.eq(p.get_value(si), env.ite(e, values[1], values[0]), "value")
                else:
                    v = p.get_value(si)
                    env.check(v != v, "no value without values")
        if round == 0:
            m.reset()
        if n > 2:
            break


def h_parameter(env, pred, ratchet, vary):
    m = model(env, [2])
    v = env.reals("v", 2, -100, 100)
    c = env.real("th", -100, 100)
    x = Var(m, env, "x")
    y = Var(m, env, "y") if vary else c
    kw = {} if pred is None else {"predicate": pred}
    p = ParameterThresholdParameter(m, x, y, values=v, ratchet=ratchet, name="p", **kw)
    verify(env, m, p, pred, x.at, (lambda t, s: y.at(t, s)) if vary else (lambda t, s: c), ratchet, v, 2 if ratchet else 1)


def h_storage(env, pred, ratchet):
    m = model(env, [2], flow=flows(env, ["st"], -5, 5))
    st = Storage(m, "st", max_volume=1000.0, initial_volume=env.real("v0", 100, 900))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])

    def xs(t, s):
        r = env.real("v0")
        for k in range(t):
            r = r + env.real("flow_st_%d_%d" % (k, s))
        return r
    th = Var(m, env, "th", 100, 900)
    v = [4.0, env.real("v1", -10, 10)]
    p = StorageThresholdParameter(m, st, th, values=v, predicate=pred, ratchet=ratchet, name="p")
    # a new run starts from the initial volume again
    verify(env, m, p, pred, xs, th.at, ratchet, v, 2)


def h_node(env, pred, ratchet):
    m = model(env, [2], flow=flows(env, ["link"], 0, 10))
    th = Var(m, env, "th", 0, 10)
    p = NodeThresholdParameter(m, m.nodes["link"], th, values=[1.0, 2.0], predicate=pred, ratchet=ratchet, name="p")
    verify(env, m, p, pred, lambda t, s: env.real("flow_link_%d_%d" % (t - 1, s)), th.at, ratchet, [1.0, 2.0], 3, first=0)


def h_recorder(env, pred, init):
    m = model(env, [2], flow=flows(env, ["link"], 0, 10))
    rec = NumpyArrayNodeRecorder(m, m.nodes["link"], name="rec")
    th = Var(m, env, "th", 0, 10)
    kw = {} if init is None else {"initial_value": init}
    p = RecorderThresholdParameter(m, rec, th, values=[1.0, 2.0], predicate=pred, name="p", **kw)
    verify(env, m, p, pred, lambda t, s: env.real("flow_link_%d_%d" % (t - 1, s)), th.at, False, [1.0, 2.0], 3,
           first=1 if init is None else init)


def h_novalues(env):
    m = model(env, [2])
    x, y = Var(m, env, "x"), Var(m, env, "y")
    p = ParameterThresholdParameter(m, x, y, name="p")
    verify(env, m, p, "LT", x.at, y.at, False, None, 1)


def h_replace(env):
    m = model(env, [2])
    x, y, z = Var(m, env, "x"), Var(m, env, "y"), Var(m, env, "z")
    p = ParameterThresholdParameter(m, x, y, name="p", values=[0.0, 1.0])
    p.threshold = z
    env.check(z in p.children and y not in p.children and x in p.children, "links follow the threshold")
    env.check(p.threshold is z, "threshold reads back")
    q = ParameterThresholdParameter(m, x, y, name="q", values=[0.0, 1.0])
    q.threshold = 4.5
    env.check(q.threshold == 4.5 and y not in q.children, "number reads back")
    verify(env, m, p, "LT", x.at, z.at, False, [0.0, 1.0], 1)
    m.reset()
    verify(env, m, q, "LT", x.at, lambda t, s: 4.5, False, [0.0, 1.0], 1)


def h_year(env, pred, ratchet):
    d = env.date("start", 1895, 2105)
    m = model(env, [1], start=d, end=d + timedelta(days=1))
    th = env.int("th", 1890, 2110)
    p = CurrentYearThresholdParameter(m, th, values=[1.0, 2.0], predicate=pred, ratchet=ratchet, name="p")
    verify(env, m, p, pred, lambda t, s: (d + timedelta(days=t)).year, lambda t, s: th, ratchet, [1.0, 2.0], 2)


def h_day(env, pred, ratchet):
    d = env.date("start", 1895, 2105)
    m = model(env, [1], start=d, end=d + timedelta(days=1))
    th = env.int("th", 690000, 770000)
    p = CurrentOrdinalDayThresholdParameter(m, th, values=[1.0, 2.0], predicate=pred, ratchet=ratchet, name="p")
    verify(env, m, p, pred, lambda t, s: (d + timedelta(days=t)).toordinal(), lambda t, s: th, ratchet, [1.0, 2.0], 2)


def first_at_or_above(env, x, ths):
    r = len(ths)
    for i in reversed(range(len(ths))):
        r = env.ite(x >= ths[i], i, r)
    return r


def h_multiple(env, n, node, late):
    """Index of the first threshold reached; thresholds may be parameters defined after it."""
    m = model(env, [2], flow=flows(env, ["link"], 0, 10))
    x = Var(m, env, "x", 0, 10)
    ths = [Var(m, env, "th%d" % i, 0, 10) for i in range(n - 1)] + [env.real("c", 0, 10)]
    if node:
        p = MultipleThresholdIndexParameter(m, m.nodes["link"], ths, name="p")
    else:
        p = MultipleThresholdParameterIndexParameter(m, x, ths, name="p")
    m.setup()
    for t in range(2):
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            v = x.at(t, s) if not node else (env.real("flow_link_%d_%d" % (t - 1, s)) if t else 0.0)
            tv = [y.at(t, s) for y in ths[:-1]] + [ths[-1]]
            env.eq(p.get_index(si), first_at_or_above(env, v, tv), "index")
            env.eq(p.get_value(si), first_at_or_above(env, v, tv), "value")


def h_load(env, what):
    m = model(env, [1], flow=flows(env, ["link", "st"], 0, 5))
    st = Storage(m, "st", max_volume=100.0, initial_volume=env.real("v0", 20, 80))
    m.nodes["in"].connect(st)
    st.connect(m.nodes["out"])
    x, y = Var(m, env, "x"), Var(m, env, "y")
    NumpyArrayNodeRecorder(m, m.nodes["link"], name="rec")
    kw = dict(parameter=dict(type="parameterthreshold", parameter="x", threshold="y", predicate=">=", values=[1.0, 2.0]),
              storage=dict(type="storagethreshold", storage_node="st", threshold=50.0, predicate="LT", values=[1.0, 2.0], ratchet=True),
              node=dict(type="nodethreshold", node="link", threshold=2.0, predicate="GT", values=[1.0, 2.0]),
              recorder=dict(type="recorderthreshold", recorder="rec", threshold=2.0, predicate="LE", values=[1.0, 2.0], initial_value=0),
              mparameter=dict(type="multiplethresholdparameterindex", parameter="x", thresholds=[5.0, "y", 1.0]),
              mnode=dict(type="multiplethresholdindex", node="link", thresholds=[4.0, 2.0]),
              year=dict(type="currentyearthreshold", threshold=2014, values=[1.0, 2.0], predicate="GT"))
    p = load_parameter(m, dict(kw[what], name="p"))
    m.setup()
    hit = False
    for t in range(2):
        m.step()
        for si in m.scenarios.combinations:
            s = si.global_id
            f = env.real("flow_link_%d_%d" % (t - 1, s)) if t else 0.0
            v = env.real("v0") + (env.real("flow_st_0_0") if t else 0)
            hit = env.Or(hit, v < 50)
            sel = lambda c: env.ite(c, 2.0, 1.0)
            e = dict(parameter=lambda: sel(x.at(t, s) >= y.at(t, s)), storage=lambda: sel(hit), node=lambda: sel(f > 2) if t else 1.0,
                     recorder=lambda: sel(f <= 2) if t else 1.0, year=lambda: 2.0,
                     mparameter=lambda: first_at_or_above(env, x.at(t, s), [5.0, y.at(t, s), 1.0]),
                     mnode=lambda: first_at_or_above(env, f, [4.0, 2.0]))[what]()
            env.eq(p.get_value(si), e, what)


def harnesses(tier):
    B = [False, True]
    out = sweep(h_parameter, over=dict(pred=PRED, ratchet=B, vary=B))
    out += sweep(h_storage, over=dict(pred=["<", "GT"] if tier == "quick" else PRED, ratchet=B))
    out += sweep(h_node, over=dict(pred=["LT", ">="] if tier == "quick" else PRED, ratchet=B))
    out += sweep(h_recorder, over=dict(pred=["<=", "GT"] if tier == "quick" else PRED, init=[None, 0, 1]))
    out += sweep(h_year, over=dict(pred=["GT", "EQ"] if tier == "quick" else PRED, ratchet=B))
    out += sweep(h_day, over=dict(pred=[">=", "EQ"] if tier == "quick" else PRED, ratchet=B))
    out += sweep(h_multiple, over=dict(n=[1, 2, 3], node=B, late=[False]))
    out += [task(h_novalues), task(h_replace)]
    out += sweep(h_load, over=dict(what=["parameter", "storage", "node", "recorder", "mparameter", "mnode", "year"]))
    return out


from checks import defaults
harnesses = defaults.extend("C16", harnesses)
