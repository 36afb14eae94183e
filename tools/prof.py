"""prof.py C13 'h_daily(delta=1)': profile one task."""
import sys, os, time, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); os.environ.setdefault("MPLBACKEND", "Agg")
from engine import run
import importlib
sh = run.load_shadow("/repo")
m = importlib.import_module("checks." + sys.argv[1].lower())
from engine import sym
for h in m.harnesses("quick"):
    if h["name"] == sys.argv[2]:
        pr = cProfile.Profile()
        t = time.time()
        run._profiler = lambda f: None
        pr.enable(); r = run.explore(h, time.time() + 300); pr.disable()
        print(time.time() - t, r["paths"], sym.STATS)
        pstats.Stats(pr).sort_stats(os.environ.get("PS","tottime")).print_stats(int(os.environ.get("PN","18")))
