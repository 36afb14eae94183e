"""Writes /verif/MANIFEST.json: one check per checks/cNN.py, everything else not applicable with its reason."""
import importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
PENDING = "No harness for it yet: the solver-based check of this property is still to be built."
NOTE = ("Bounded symbolic execution of the current /repo sources (.py directly, .pyx lowered from Cython's own parse tree), path "
        "conditions and assertions decided by Z3 over reals/integers; counterexamples replayed on the real build before they "
        "are reported, and one witness per harness replayed to validate the encoding. %s")
checks, na = [], []
for p in PROPS:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, PENDING)})
        continue
    src = open(f).read()
    ns = {}
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "LEVEL_NOTE", "OUTSIDE"):
            try:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    bits = []
    if ns.get("BOUNDS"):
        bits.append("Bounds: %s." % ns["BOUNDS"])
    if ns.get("OUTSIDE"):
        o = ns["OUTSIDE"]
        bits.append("Outside: %s." % (o if isinstance(o, str) else "; ".join(o)))
    bits.append("Floats are treated as reals.")
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "technique": "symbolic execution of the real Python/Cython sources with SMT (Z3)",
                   "level": "model_checking", "level_note": NOTE % " ".join(bits)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.json lists recorded and repaired genuine defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
