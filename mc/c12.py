"""C12: rolling-horizon operation.

Every (series length, window, horizon) up to a bound, for systems with storage of several kinds and series whose values,
gaps and infinities differ from step to step.  Each call of the solver is recorded: the problem the backend holds
(extracted row by row) and what it returned.  Oracle, independent of the update and rebuild logic of the run:
  - window k starts at the k-th window start, and covers the steps from there to the end of its horizon;
  - its problem equals the one freshly built from those steps of the model inputs, with the storage level at the end of
    the previous window as initial level;
  - the results are the first `window` steps of every window (all steps of the last), one value per step, in order.
A second, forced run and (3 steps) a run after a forced build give the same results; the inputs are as before.
"""
from __future__ import annotations

import itertools
import math
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mc import fast, problem, systems
from mc.c11 import same_data

fast.memo_grammars()

PROPERTY, LEVEL = "C12", "model_checking"
ASSUMPTIONS = ["the fresh build of a slice of the inputs is the oracle for the problem of a window (it is judged itself by C05-C10 and C18)"]
BOUNDS = {
    "quick": "small formulation: hourly series of 2..4 steps (2..5 for the pattern with gaps), every window 1..n+1, every horizon window..n+1, 4 data patterns; 2-hourly steps; windows off the step grid; Gurobi for 4 steps; shipped formulation: 6 runs",
    "thorough": "small formulation up to 9 steps on both interfaces; shipped formulation: 4 systems x 4 patterns x every (length 3..6, window, horizon)",
}
CASE_TIMEOUT = 400
INF, NAN = math.inf, math.nan
CAPS = {"gen": 6, "loc": 9, "line": 6, "bat": 3, "dam": 4, "pv": 5, "ev": 2, "tank": 3, "demq": 9, "batc": 2}

# series of up to 9 steps; the patterns differ in where values are missing, infinite or zero
PATTERNS = {
    "full": {"dem": [2, 4, 3, 5, 1, 2, 6, 3, 2], "pv": [0, 1, 2, 0.5, 3, 0, 1, 2, 1], "dam": [3, 0, 2, 1, 0, 4, 0, 1, 2], "price": [1, 3, 2, 4, 1, 2, 3, 1, 5], "eff": [0.9, 0.8, 1, 0.7, 0.9, 1, 0.8, 0.9, 1]},
    "gaps": {"dem": [2, 4, 3, 5, 1, 2, 6, 3, 2], "pv": [NAN, 1, NAN, NAN, 3, 0, NAN, 2, 1], "dam": [3, NAN, 2, NAN, NAN, 4, 0, NAN, 2], "price": [NAN, 3, NAN, 4, 1, NAN, 3, 1, NAN], "eff": [0.9, NAN, 1, 0.7, NAN, NAN, 0.8, 0.9, NAN]},
    "inf": {"dem": [2, 4, 3, 5, 1, 2, 6, 3, 2], "pv": [1, INF, 2, INF, 3, 0, 1, INF, 1], "dam": [3, 0, INF, 1, INF, 4, 0, 1, INF], "price": [1, 3, 2, 4, 1, 2, 3, 1, 5], "eff": [0.9, 0.8, 1, 0.7, 0.9, 1, 0.8, 0.9, 1]},
    "late": {"dem": [0, 0, 0, 5, 1, 2, 6, 3, 2], "pv": [NAN, NAN, NAN, 0.5, 3, 0, 1, 2, 1], "dam": [0, 0, 0, 0, 0, 4, 0, 1, 2], "price": [NAN, NAN, NAN, NAN, 1, 2, 3, 1, 5], "eff": [NAN, NAN, NAN, 0.7, 0.9, 1, 0.8, 0.9, 1]},
}
SYSTEMS = {
    "store": ["bat", "dam"],
    "rich": ["bat", "dam", "ramp", "minrel", "export", "sinks", "convstore"],
    "plain": [],
    "zero": ["bat", "zerocap"],
}


def definition(system, pattern, n, be, step="1h"):
    ts = [str(t)[:16] for t in pd.date_range("2005-01-01", periods=n, freq=step)]
    pat = PATTERNS[pattern]

    feats = SYSTEMS[system]
    d = systems.base(ts, be)
    d["data_definitions"].pop("sink_use_equals")
    for f in feats:
        systems.F[f](d)
    dd = d["data_definitions"]
    for k in ("sink_use_equals", "source_use_max", "source_use_equals"):
        dd.pop(k, None)

    def series(par, tech, node, vals):
        ent = dd.setdefault(par, {"data": [], "index": [], "dims": ["techs", "nodes", "timesteps"]})
        for t, v in zip(ts, vals):
            if not (isinstance(v, float) and math.isnan(v)):
                ent["data"].append(v)
                ent["index"].append([tech, node, t])

    series("sink_use_equals", "dem", "b", pat["dem"])
    if any(v == v for v in pat["pv"][:n]):
        series("source_use_max", "gen" if "minrel" in feats else "loc", "a" if "minrel" in feats else "b", pat["pv"])
    if "dam" in d["techs"]:
        series("source_use_max", "dam", "a", pat["dam"])
    series("flow_out_eff", "gen", "a", pat["eff"])
    if not dd["flow_out_eff"]["data"]:
        dd.pop("flow_out_eff")
    if any(v == v for v in pat["price"][:n]):
        dd["cost_flow_in"] = {"data": [], "index": [], "dims": ["techs", "nodes", "timesteps", "costs"]}
        for t, v in zip(ts, pat["price"]):
            if v == v:
                dd["cost_flow_in"]["data"].append(v / 10)
                dd["cost_flow_in"]["index"].append(["dem", "b", t, "monetary"])
    for t, v in CAPS.items():
        if t in d["techs"]:
            d["techs"][t]["flow_cap"] = v
            for k in ("flow_cap_max", "flow_cap_min"):
                d["techs"][t].pop(k, None)
    for t, c in (("bat", 4), ("dam", 10), ("tank", 5)):
        if t in d["techs"]:
            d["techs"][t]["storage_cap"] = c
            d["techs"][t]["cyclic_storage"] = False
            d["techs"][t].pop("storage_cap_max", None)
    if "tank" in d["techs"]:
        d["techs"]["tank"]["storage_initial"] = 0.6
    if system == "zero":
        d["techs"]["bat"]["storage_cap"] = 0
    for t, par in (("farm", "area_use"), ("roof", "area_use")):
        if t in d["techs"]:
            d["techs"][t]["area_use"] = 2
            d["techs"][t]["flow_cap"] = 3
    if "dam" in d["techs"]:
        d["techs"]["dam"]["source_cap"] = 4
        d["techs"]["dam"].pop("source_cap_max", None)
    d["config"]["init"]["mode"] = "operate"
    d["config"]["solve"]["zero_threshold"] = 0
    d["config"]["build"]["ensure_feasibility"] = True
    dd["bigM"] = 100
    d.pop("_ts")
    return d


SMALL = {
    "mode": {"full": "xxyyxyxyx", "gaps": "x.y.xx.y.", "inf": "xyyxyyxyy", "late": "....xyxyx"},
    "flag": {"full": "100110101", "gaps": "1.0.11.0.", "inf": "111111111", "late": "....10101"},
}
DIR = systems.__file__.rsplit("/", 1)[0] + "/data/c12/"


def small(pattern, n, be, step="1h"):
    """The same data with a small formulation of its own, which builds in milliseconds."""
    ts = [str(t)[:16] for t in pd.date_range("2005-01-01", periods=n, freq=step)]
    pat = PATTERNS[pattern]

    def series(dims, fixed, vals):
        keep = [(t, v) for t, v in zip(ts, vals) if v == v and v != "."]
        return {"data": [v for _, v in keep], "index": [list(fixed) + [t] for t, _ in keep], "dims": dims + ["timesteps"]} if keep else None

    dd = {
        "demand": series(["nodes"], ["b"], [x + 0.25 for x in pat["dem"]]),
        "src": series(["nodes", "techs"], ["b", "s"], pat["pv"]),
        "price": series([], [], pat["price"]), "eff": series(["techs"], ["s"], pat["eff"]),
        "tmode": series(["nodes"], ["b"], SMALL["mode"][pattern]),
        "tflag": series([], [], [x if x == "." else x == "1" for x in SMALL["flag"][pattern]]),
        "flow_cap": {"data": [4, 5], "index": [["a", "s"], ["b", "s"]], "dims": ["nodes", "techs"]},
        "storage_cap": {"data": [4, 6, 0], "index": [["a", "st"], ["b", "st"], ["b", "st0"]], "dims": ["nodes", "techs"]},
        "storage_initial": {"data": [0.5, 0.25], "index": [["a", "st"], ["b", "st0"]], "dims": ["nodes", "techs"]},
    }
    if pattern == "full":
        dd["src"]["data"] += [2.0] * n
        dd["src"]["index"] += [["a", "s", t] for t in ts]
    if pattern == "inf":
        dd["storage_initial"] = {"data": [0.5], "index": [["st"]], "dims": ["techs"]}
    if pattern == "late":
        dd.pop("storage_initial")
    st = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e"}
    return {
        "config": {"init": {"name": "small", "mode": "operate", "math_paths": {"base": DIR + "base.yaml", "operate": DIR + "operate.yaml"}}, "build": {"backend": be},
                   "solve": {"solver": "glpk" if be == "pyomo" else "gurobi", "zero_threshold": 0}},
        "techs": {"s": {"base_tech": "supply", "carrier_out": "e"}, "st": dict(st), "st0": dict(st), "d": {"base_tech": "demand", "carrier_in": "e"}},
        "nodes": {"a": {"techs": {"s": None, "st": None}}, "b": {"techs": {"s": None, "st": None, "st0": None, "d": None}}},
        "data_definitions": {k: v for k, v in dd.items() if v},
    }


# -- recording -----------------------------------------------------------------------------------------------------
class Recorder:
    """Replaces the solver call of the backend class by one that records problem and answer."""

    def __init__(self, be):
        from calliope.backend.gurobi_backend_model import GurobiBackendModel
        from calliope.backend.pyomo_backend_model import PyomoBackendModel

        self.cls = PyomoBackendModel if be == "pyomo" else GurobiBackendModel
        self.calls = []

    def __enter__(self):
        self.orig = self.cls._solve
        rec = self

        def spy(self, *a, **k):
            p = problem.extract(self)
            labels = [problem.item(t) for t in self.inputs.timesteps.values]
            r = rec.orig(self, *a, **k)
            rec.calls.append((p, labels, r.copy(deep=True)))
            return r

        self.cls._solve = spy
        return self

    def __exit__(self, *a):
        self.cls._solve = self.orig


def relabel(p, old, new):
    """The problem with the time labels of `old` replaced by those of `new`, by position."""
    m = dict(zip(old, new))

    def f(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "timesteps":
                return ("timesteps", m.get(x[1], x[1]))
            return tuple(f(i) for i in x)
        if isinstance(x, frozenset):
            return frozenset(f(i) for i in x)
        if isinstance(x, dict):
            return {f(k): f(v) for k, v in x.items()}
        return x

    out = {k: f(v) for k, v in p.items() if k != "constraints"}
    # the orientation of a row depends on its labels
    out["constraints"] = {f(k): renorm(f(v)) for k, v in p["constraints"].items()}
    return out


def renorm(row):
    lb, terms, ub = row
    return problem.norm_row(lb, terms, ub)


def fresh_problem(m, pos, level):
    """Built from the steps `pos` of the inputs, with the given storage level (None at the start)."""
    from calliope import backend

    inp = m.inputs.drop_vars(["windowsteps", "horizonsteps"], errors="ignore").isel(timesteps=pos)
    if level is not None:
        cap = inp.storage_cap
        inp["storage_initial"] = (level / cap.where(cap > 0)).transpose(*[d for d in ("nodes", "techs") if d in level.dims])
    b = backend.get_model_backend(m.config.build, inp, m.math.build)
    b.add_optimisation_components()
    return problem.extract(b)


def windows(times, window, horizon):
    """[(positions of the window and its horizon, positions kept)]"""
    t0, t1 = times[0], times[-1]
    out, start = [], t0
    w, h = pd.Timedelta(window), pd.Timedelta(horizon)
    while start <= t1:
        hor = [i for i, t in enumerate(times) if start <= t < start + h]
        keep = [i for i, t in enumerate(times) if start <= t < start + w]
        out.append((hor, keep))
        start += w
    return out


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (infeasible if case[0] == "bad" else roll)(case, res)


def infeasible(case, res):
    """One window has no solution: no results, and the same on a repeated run; a feasible run afterwards is possible."""
    import calliope

    _, n, w, h, k, be = case
    d = small("full", n, be)
    d["data_definitions"]["demand"]["data"][k] = 500
    m = calliope.read_dict(d)
    m.build(operate={"window": f"{w}h", "horizon": f"{h}h"})
    key = f"infeasible:{n}:{w}:{h}:{k}:{be}"
    for run in (1, 2):
        with Recorder(be) as rec:
            m.solve(force=run > 1)
        res.traces += 1
        res.evaluations += 1
        res.outcome((len(rec.calls), m.runtime.termination_condition))
        first_bad = next(i for i, (hor, _) in enumerate(windows([pd.Timestamp(t) for t in m.inputs.timesteps.values], f"{w}h", f"{h}h")) if k in hor)
        if m.results.data_vars or "optimal" in str(m.runtime.termination_condition) or len(rec.calls) != first_bad + 1:
            res.fail(key, f"run {run}: window {first_bad} has no solution, yet {len(rec.calls)} windows ran, termination {m.runtime.termination_condition}, {len(m.results.data_vars)} result arrays")
            return


def roll(case, res):
    import calliope

    _, system, pattern, n, window, horizon, step, be = case
    key = f"{system}:{pattern}:{n}:{window}:{horizon}:{step}:{be}"
    m = calliope.read_dict(small(pattern, n, be, step) if system == "small" else definition(system, pattern, n, be, step))
    before = m.inputs.copy(deep=True)
    m.build(operate={"window": window, "horizon": horizon})
    times = [pd.Timestamp(t) for t in before.timesteps.values]
    wins = windows(times, window, horizon)
    with Recorder(be) as rec:
        m.solve()
    res.traces += 1
    first = m.results.copy(deep=True)
    if len(rec.calls) != len(wins):
        res.fail(f"windows:{key}", f"{len(rec.calls)} windows were optimised, expected {len(wins)}: {[[i for i in h] for h, _ in wins]}")
        return
    level = None
    parts = []
    for k, ((hor, keep), (p, labels, r)) in enumerate(zip(wins, rec.calls)):
        res.states += 1
        res.transitions += len(p["constraints"])
        true = [problem.item(np.datetime64(times[i])) for i in hor]
        if len(labels) != len(true):
            res.fail(f"horizon:{key}", f"window {k}: {len(labels)} steps were optimised, expected {len(true)}")
            return
        want = fresh_problem(m, hor, level)
        if d := problem.diff(relabel(p, labels, true), want):
            res.fail(f"problem:{key}", f"window {k} (steps {hor}): the problem solved differs from the one built from those steps (solved != expected): {d}")
            return
        res.outcome((len(hor), len(keep), repr(sorted(p["constraints"].items(), key=repr))[:500]))
        if r.attrs["termination_condition"] != "optimal":
            res.fail(f"status:{key}", f"window {k} ended {r.attrs['termination_condition']}")
            return
        part = r.isel(timesteps=list(range(len(keep)))) if "timesteps" in r.dims else r
        part = part.assign_coords(timesteps=[np.datetime64(times[i], "ns") for i in keep])
        parts.append(part)
        level = part.storage.isel(timesteps=-1).drop_vars("timesteps") if "storage" in part and bool(part.storage.notnull().any()) else None
    # one value per step
    got = [pd.Timestamp(t) for t in first.timesteps.values]
    if got != times:
        res.fail(f"steps:{key}", f"the results have the steps {[str(t) for t in got]}")
        return
    for name in sorted(set().union(*[set(p.data_vars) for p in parts])):
        arrs = [p[name] for p in parts if name in p]
        if "timesteps" not in arrs[0].dims:
            continue
        if name not in first:
            res.fail(f"missing:{key}:{name}", f"{name} is not among the results")
            return
        want = xr.concat([a for a in arrs], "timesteps")
        have = first[name].sel(timesteps=want.timesteps).transpose(*want.dims)
        if len(arrs) == len(parts):
            have = first[name].transpose(*want.dims)
        if d := same_data(xr.Dataset({name: have}), xr.Dataset({name: want})):
            res.fail(f"stitch:{key}:{name}", f"result {name} is not the sequence of the windows' own steps: {d}")
            return
        res.evaluations += 1
    after = m.inputs.drop_vars(["windowsteps", "horizonsteps"], errors="ignore")
    if d := same_data(after, before):
        res.fail(f"inputs:{key}", f"the model inputs changed: {d}")
        return
    if set(after.coords) != set(before.coords) or not all(after[c].equals(before[c]) for c in before.coords):
        res.fail(f"coords:{key}", "the model's coordinates changed")
        return
    if m.runtime.termination_condition != "optimal":
        res.fail(f"term:{key}", f"termination condition {m.runtime.termination_condition}")
        return
    for what in ("again", "rebuilt") if n == 3 else ("again",):
        if what == "rebuilt":
            m.build(force=True)
        with Recorder(be) as rec2:
            m.solve(force=True)
        res.traces += 1
        if len(rec2.calls) != len(rec.calls):
            res.fail(f"{what}:{key}", f"a repeated run optimised {len(rec2.calls)} windows instead of {len(rec.calls)}")
            return
        for k, (x, y) in enumerate(zip(rec.calls, rec2.calls)):
            if d := problem.diff(relabel(x[0], x[1], x[1]), relabel(y[0], y[1], x[1])):
                res.fail(f"{what}:{key}", f"window {k} of a repeated run ({what}) is another problem: {d}")
                return
        if d := same_data(m.results, first):
            res.fail(f"{what}:{key}", f"a repeated run ({what}) gives other results: {d}")
            return
    res.sample = {"steps": n, "window": window, "horizon": horizon, "windows": [h for h, _ in wins]}


def cases(tier):
    quick = tier == "quick"
    for system, pattern, n, w, h, be in [("rich", "gaps", 4, 2, 3, "pyomo"), ("rich", "full", 4, 1, 2, "pyomo"), ("store", "inf", 4, 2, 3, "pyomo"), ("zero", "late", 4, 3, 4, "pyomo"),
                                         ("rich", "gaps", 4, 2, 3, "gurobi"), ("store", "full", 3, 3, 3, "pyomo")]:
        yield ("roll", system, pattern, n, f"{w}h", f"{h}h", "1h", be)
    for pattern in PATTERNS:
        top = 9 if not quick else 5 if pattern == "gaps" else 4
        for n in range(2, top + 1):
            for w in range(1, n + 2):
                for h in range(w, n + 2):
                    yield ("roll", "small", pattern, n, f"{w}h", f"{h}h", "1h", "pyomo")
                    if not quick or (n == 4 and pattern in ("gaps", "late")):
                        yield ("roll", "small", pattern, n, f"{w}h", f"{h}h", "1h", "gurobi")
    for pattern in ("gaps", "full") if quick else PATTERNS:
        for w, h in (("2h", "2h"), ("2h", "6h"), ("4h", "4h"), ("4h", "6h"), ("6h", "8h"), ("4h", "24h")):
            yield ("roll", "small", pattern, 5, w, h, "2h", "pyomo")
        for w, h in (("90min", "3h"), ("150min", "150min"), ("90min", "90min"), ("120min", "210min"), ("1D", "2D"), ("180min", "1D")):
            yield ("roll", "small", pattern, 6, w, h, "1h", "pyomo")
    for n, w, h in ((3, 1, 1), (3, 1, 2), (4, 2, 3), (2, 2, 2), (3, 5, 5)):
        for k in range(n):
            for be in ("pyomo", "gurobi"):
                yield ("bad", n, w, h, k, be)
    if not quick:
        for system, pattern in itertools.product(SYSTEMS, PATTERNS):
            for n in (3, 4, 5, 6):
                for w in range(1, n + 1):
                    for h in range(w, n + 1):
                        yield ("roll", system, pattern, n, f"{w}h", f"{h}h", "1h", "pyomo" if (n + w + h) % 4 else "gurobi")
