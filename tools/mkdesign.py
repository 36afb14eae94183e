"""Writes /verif/DESIGN.md from the text below, the checks, known_findings.json and seeded/*/meta.json."""
import importlib
import json
import os
import sys
import textwrap

V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

INTRO = """\
# Design

Every property of `properties.jsonl` is decided by **symbolic execution of the code that is in /repo when the check
runs**: the inputs that the property quantifies over (flows, limits, volumes, parameter values, dates, scenario
sizes, file contents, the solver's answer ...) are Z3 variables, branches on them fork the path, and each assertion
is an SMT query `path condition and not property`.  `unsat` on every path means that the property holds for *every*
value within the stated bounds; `sat` gives values that are replayed on a scratch build of the real code, and only a
violation that the real build shows is reported.  No check samples inputs, and no verdict comes from a concrete run.

    ./setup.sh                    checks the tools and warms the scratch build (the checks also work without it)
    ./check C05 quick             one property; exit 0 held, 1 VIOLATION, 2 nothing could be decided
    ./check C05 thorough          larger networks, longer runs, more scenarios, larger time limits
    VERIF_REPO=/some/tree ./check C05 quick delay     another tree, only the harnesses whose name contains "delay"

## 1. How the real code is encoded

| part | what it does |
|------|--------------|
| `engine/pyx2py.py` | parses every `.pyx`/`.pxd` of /repo with **Cython's own parser** and lowers the parse tree to Python, keeping the C typing: coercions of arguments, locals, attributes and returns (`double x = None` raises, `int n = 2.5` raises ...), C division, unset C variables, C arrays and pointers, memoryviews with element types, `cdef`/`cpdef` dispatch, property accessors, `__cinit__`. |
| `engine/loader.py` | loads the lowered modules and the `.py` sources as a second ("shadow") `pywr` package, from the current tree, on every run.  Nothing is cached between runs. |
| `engine/sym.py` | symbolic reals, integers, booleans; infinity and NaN are kept as concrete special values; comparing symbols forks.  Paths are explored by re-execution with a decision list; every fork asks the solver which sides are possible. |
| `engine/krt.py` | the run-time library of the lowered code: typed memoryviews and numpy arrays that can hold symbols, C memory with sizes (an access outside a block is a `MemoryFault`), libc, numpy functions used by pywr (sum, mean, median, percentile, sort, searchsorted, interp ...) in symbolic form. |
| `engine/lpstub.py` | stand-in for the C functions of GLPK: records rows, columns, bounds, objective symbolically, with GLPK's argument checks; `glp_simplex` answers with **an arbitrary feasible point** of the recorded problem (or no answer at all), so that what follows holds whatever vertex GLPK picks. |
| `engine/caldate.py` | symbolic calendar dates: any day of 1895..2105 as one integer, with year/month/day/day of year by the Gregorian rules as terms. |
| `engine/pdshim.py`, `engine/scishim.py` | the pandas and scipy functions used, over frames and arrays that hold symbols (`interp1d`, `quad`, `percentileofscore`; `Rbf` and `gaussian_kde` abstracted). |
| `engine/realbuild.py` | builds the tree's extension modules into a scratch directory (keyed by the sources, outside /repo), for replays. |
| `engine/replay.py`, `engine/run.py` | run a harness with concrete values on the real build; task pool; evidence. |

The same harness runs in both worlds: symbolically on the shadow, and concretely on the real build.

**How the encoding itself is kept honest.**  (a) A counterexample counts only when the real build shows it too; what
the solver found is saved as `evidence/replay-<id>-<n>.json` and can be rerun with `./check replay FILE`.  (b) For
every harness one *witness* (a model of a path's condition) is run on the real build, and its assertions must hold
there: a lowering that silently diverges from the compiled code shows as a difference; a witness that violates by
more than a rounding margin is reported.  (c) The whole pywr test-suite was run against the shadow package (lowered
code, real libglpk through ctypes): the tests that do not need pickling, C-level attribute errors or `None` checks of
typed arguments pass.  (d) `tools/mutate.py` (section 5) shows that the assertions are not vacuous.

**Inconclusive paths.**  A path on which the encoder meets something it does not model, a solver `unknown`, or a
time limit is *inconclusive*: it is listed in the evidence with the reason, is never a violation, and the check
exits 2 if nothing at all could be decided.  On the unchanged tree no harness of the quick tier is inconclusive.
Limits: quick 240 s in all and 60 s for one task, thorough 3000 s and 600 s.

**Floating point.**  Values are reals, so rounding is outside every claim; where the code itself rounds to zero
(1e-8 snapping in the LP, 1e-6 in volumes) the assertions carry that tolerance.

## 2. Properties, and how each is decided
"""

METHOD = {
 "C01": "`Model.step` is run over small networks whose limits are symbolic numbers, parameters and per-scenario parameters. *sound*: for any feasible answer of the solver stand-in, `node.flow` lies within `get_min_flow/get_max_flow` of that step and scenario. *complete*: for any flows that obey all limits a feasible point of the posed LP exists that yields them (a quantified query solved by giving the witness). Also every number-to-parameter edit of a limit between runs, all options of both GLPK solvers, and the bulk getters (`get_all_*`, `get_constant_*`, `get_fixed_*`) against the one-by-one ones. Tests fix a few numbers and see only GLPK's one vertex.",
 "C02": "Same machinery: any feasible answer must commit flows with inflow = outflow at links, network balance, conversion factors across domains, and `volume' = volume + net * days`; also `commit_all` = `commit` element by element.",
 "C03": "Any volume within the limits, any feasible answer: the new volume is within the limits, FX storages do not exchange net water; initial volumes (absolute / percentage / both), fractional volumes, limits that are parameters, edits of limits between runs, storages whose minimum is raised above the volume.",
 "C04": "The objective recorded by the stand-in, evaluated at any feasible point, equals the sum over nodes of flow x cost computed from `get_cost` (storage: charged on release, credited on fill); paths are compared with an independent enumeration; a failing solver status must raise; costs changed between steps, scenarios and runs, with every solver option.",
 "C05": "For any feasible answer: weighted totals within limits, ratios between members exactly as given, members sharing a path counted; factors as numbers and parameters that change between steps, replaced between runs; the reverse (*complete*) direction so that the rows are not too strong.",
 "C06": "Virtual storages in the LP (rows, activity) and after it (volume = previous - factor-weighted flow x days, clamped nowhere else), rolling ones over symbolic histories longer than their window; documented defaults.",
 "C07": "Relational: the LP recorded in step 2 (or scenario 2, or after a reset or an edit) is compared, row by row and bound by bound, with the one posed by a *fresh* model holding the same values, for all 8 combinations of engine and options; a differing coefficient is a satisfiable query.",
 "C08": "Scenario sizes, slices and user combinations are symbolic integers; the resulting combinations, global ids, names and `multi_index` are compared with the defining product; every ill-shaped definition must be rejected; slices, combinations and scenarios edited between two runs must be those of the second run and of its recorder columns.",
 "C09": "Start is any day of 1895..2105, period and step symbolic: consecutive, gap-free, inside the period, with index, length and calendar fields by the independent symbolic calendar; edits of start/end/delta after runs; restarts at a date.",
 "C10": "Every directed graph of dependencies over 3-4 components is an input (its edges are symbolic booleans that the paths enumerate): order of evaluation, once per scenario, hooks once per step, cycles rejected; for each class with inputs, the registered children are the inputs, also after replacing them. ",
 "C11": "Relational over two runs of one model: the second run with arbitrary other inputs in the first must give, for equal inputs, the same values as a run of a fresh model; one harness for each stateful class (nodes, storages, parameters, recorders).",
 "C12": "Members' values are symbolic per step and scenario; each aggregation function by name against its definition, with duplicates, constants, added and removed members, custom functions.",
 "C13": "Any date 1895..2105 (leap or not), arbitrary tables: value against the documented entry or interpolation; wrong lengths must be rejected; documented defaults.",
 "C14": "Arbitrary data in frames with indices of every pair of frequencies; the value each step and scenario (also sliced/user combinations) against the documented resampling; short, misaligned, wrong-scenario data rejected.",
 "C15": "Any volume and any curve values per step and scenario: band selection, exact at the curves, linear in between, inside the neighbouring values; every class, load from a document, rejected constructions, documented defaults.",
 "C16": "Any monitored value and threshold, all predicates, ratchets over steps and resets, multiple thresholds.",
 "C17": "Any flows over 4-5 steps, any window or delay: value against the stated function of the recorded history; second run after another; delays given in days; discount factors by integer powers.",
 "C18": "Any inputs: result equals the documented function; interpolation passes its points; polynomials up to degree 3; activation functions with `exp` uninterpreted.",
 "C19": "Non-linear real arithmetic: production(flow for target) = target when not limited; limits exactly where stated; energy = power x days x 24 with the stated conversions; recorder totals.",
 "C20": "Any use within the licence over up to 6 steps starting on any date: sum over each period at most the amount, remaining = amount - use, restored exactly at period starts.",
 "C21": "Any date and step length: volumes and activity against an independent reset schedule computed by the symbolic calendar.",
 "C22": "Each compound node between free inputs and outputs, arbitrary limits, costs, factors; sound and complete as in C01/C02, against the single element it stands for; constructed directly and from documents.",
 "C23": "Any flows are committed to nodes directly; every array recorder's data, frames and labels against the committed history.",
 "C24": "Same, for running totals and counts, straddling years, step lengths 1-100 days.",
 "C25": "Aggregation over time then scenarios by name, missing values, percentiles, custom functions; against definitions (order statistics as terms).",
 "C26": "Threshold states are symbolic booleans per step and scenario; events compared with the maximal runs.",
 "C27": "Any recorded values and bounds: constraint predicates, feasibility, objective signs, order, variables applied; wrappers for platypus (real library) and pygmo (stand-in module).",
 "C28": "Any variable values and bounds: set/get round trip, bounds shape, values in effect afterwards equal those of a parameter made with them; rejected sizes.",
 "C29": "Any flows and observations: each statistic against its definition (order statistics as terms; kernels with the normal pdf/cdf uninterpreted, symmetric).",
 "C30": "The document is symbolic where it can be (reference graphs, order, which names exist); 50 parameter types and 20 recorder types compare a loaded object with a constructed one; includes, duplicates, unknown and circular references.",
 "C31": "Two or three sub-models in every order: order of steps (Probe components), values exchanged at every step for arbitrary inputs; rejected combinations.",
 "C32": "Feasibility is an *arbitrary* function of the parameter's value (uninterpreted), bounds/precision symbolic: all evaluations inside bounds, result feasible, next grid value infeasible for monotone feasibility, errors.",
 "C33": "Any volume and relation: interpolated level/area on the segment; Keating equation; limits of catchments and discharges; reservoir compound nodes.",
 "C34": "In-memory stand-ins for PyTables/csv files that keep elements: any values, slices, combinations, buffer sizes, early ends; what is read back equals the recorded step values; PyTables itself is used in the replays.",
 "C35": "Files have symbolic content bytes, read in symbolic-order blocks; a digest is an injective function of (algorithm, bytes fed), so accepting a mismatching file or rejecting a matching one is a satisfiable query. Everything from the `checksum` key of documents, frames and tables to `check_hash` is executed.",
 "C36": "Each possible connection, each operation of an edit sequence, each name and the step a run fails at is a symbolic variable; the real registries, route search, model check and run loop are executed and compared with a list of what was built and an independent path search. Deletions between runs are decided on the linear programme: the coefficients posed after the deletion must equal, for all symbolic limits, costs and volumes, those of a model built without the node.",
 "C37": "Which connections exist, where nodes are placed, attribute values and stored route flows are symbolic; the drawing functions are executed on the model and on its document and compared with the document's own nodes and edges and with each other, the flow diagram with the aggregation written out. HDF5 reading is replaced by an in-memory stand-in.",
}

FALSE = """\
## 4. False alarms met while building, and what was wrong

The check was wrong and was corrected (never listed as findings): C03 a storage whose minimum is raised above its volume
is documented to fill as far as it can (the harness had expected infeasibility); C10 components that raise
`NotImplementedError` by design; C15 a `bounds of parameters` rejection that pywr does not promise, and floats in
`parameters`; C16 the storage thresholds' expectation (start-of-step volume); C21 the initial monthly volume and starts
on 29 February; C22 mapping of sub-nodes and a tolerance; C23 volumes that snap to their limits within 1e-6; C25 a
rejection that depended on the encoder; C27/C29 calibration recorders are not registered by design; C29 the points of
the normalised KDE; C30 constructor keywords that a class does not have (virtual storage cost, nsteps, inputs); C31
volumes outside their limits created by the harness itself, and components added without a new setup; C34 limits of
aggregated storages in the spy; several encoder errors found by witnesses (typed `None`, integer division, `str` of a
symbol, numpy broadcasting, views of buffers).

## 4a. Seen, but neither repaired nor reported

Behaviour that looks unintended but that the documentation does not settle, so that no property claims it: an annual
virtual storage whose maximum volume is a parameter, and a node threshold at index 0, use "first step" by index and not
by run after `reset(start=...)`; `DiscountFactorParameter` documents `discount_rate` but takes `rate`; aggregated storages over
virtual storages ignore annual resets; GLPK's message level persists after a failed solve; a virtual storage listing a
node twice; two roles of one parameter in threshold setters; `Storage.iter_slots` raising `StopIteration` inside a
generator; a loss link with gross loss factor 1 sets its net maximum to 0 for good; aggregated recorders' max/min ignore
NaN; documents without `timestepper`; sub-daily frequencies (`0D`); a time table without hours; tables recorders with inline
parameter documents or a node twice; unused scenario cells of buffered tables with user combinations; disconnecting storages and compound nodes (`_disconnect` passes
`all_slots` to `iter_slots` methods that do not take it); a `Discharge` in the middle of a river is refused by the edge
solver; numbers replaced by parameters (or back) under the "once" options need a new `setup`; a rolling virtual storage that
is switched off mid-run keeps crediting the flow of its last active step; the parts of a compound node whose constructor
failed stay in the network.
"""

COST = """\
## 6. Files

`properties.jsonl`, `MANIFEST.json` (by `tools/mkmanifest.py`), this file (by `tools/mkdesign.py`), `known_findings.json`
(all entries are *fixed*; `tools/addfix.py` adds one), `checks/cNN.py` (one per property), `checks/lib.py`, `checks/lpnet.py`
(networks and the LP relation), `checks/allvals.py` (bulk getters), `checks/defaults.py` (documented defaults), `engine/`,
`seeded/`.  Developer's tools, used by no check: `tools/mutate.py` (mutation testing on the symbolic side),
`tools/shadowtest.py` (pywr's tests on the lowered code),
`tools/mkseed.py` (plant a bug from a specification), `tools/trybug.sh` (do the checks catch it), `tools/prof.py`.

There are no hooks in /repo: the lowering works on the sources as they are.  A quick check takes 3-60 s alone (all 35
about 12 minutes), of which the scratch build takes up to 25 s the first time a tree is seen.
"""


def text(x):
    return x if isinstance(x, str) else "; ".join(x)


def main():
    out = [INTRO]
    for p in PROPS:
        i = p["id"]
        m = importlib.import_module("checks." + i.lower())
        out.append("### %s %s\n" % (i, p["title"]))
        out.append(textwrap.fill(METHOD[i], 118) + "\n")
        for k, name in (("BOUNDS", "Bounds"), ("OUTSIDE", "Outside"), ("ASSUMPTIONS", "Assumes")):
            v = text(getattr(m, k, "") or "")
            if v:
                out.append(textwrap.fill("*%s*: %s." % (name, v.rstrip(".")), 118) + "\n")
    out.append("No property is listed as not applicable.\n")
    fs = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    out.append("## 3. Genuine defects found\n\nEach was shown on the real build first, then repaired in /repo by its own `fix:` commit "
               "(the check fails again if it\nreturns); %d are recorded.\n" % len(fs))
    out.append("| id | property | commit | what failed |\n|----|----|----|----|")
    for f in fs:
        w = f["what"]
        h = "fixed: property=%s %s " % (f["property"], f.get("commit"))
        out.append("| %s | %s | %s | %s |" % (f["id"], f["property"], f.get("commit", ""), w[len(h):].replace("|", "/") if w.startswith(h) else w.replace("|", "/")))
    out.append("\n" + FALSE)
    out.append("## 5. Planted bugs and mutation testing\n")
    out.append(open(os.path.join(V, "tools", "seeds.txt")).read())
    out.append("| planted bug | property | needs | caught by |\n|----|----|----|----|")
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    for s in sorted(os.listdir(os.path.join(V, "seeded"))):
        f = os.path.join(V, "seeded", s, "meta.json")
        if os.path.exists(f):
            d = json.load(open(f))
            out.append("| %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "/").replace("\n", " "), caught.get(s, "not caught yet")))
    out.append("\n" + COST)
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


main()
