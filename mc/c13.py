"""C13: SPORES runs (near-optimal alternatives).

The solver is part of the environment: its answers are enumerated.  In the scripted family the solver call is replaced by
one that returns capacities from a small alphabet (every pattern for the baseline, every sequence of patterns for three
runs), so that the state space explored is (scores so far, previous capacities) under every algorithm, threshold and tracking choice;
the problem held by the backend at each call (objective coefficients, cost limit) is compared with a reference in plain Python.
The real families use the real solvers: uninterrupted runs, runs interrupted after every k and continued in the same
model, after a reload, and from the per-run file; runs that continue a base-mode model; infeasible runs; crashes at every
solver call and at every file write.
"""
from __future__ import annotations

import itertools
import math
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mc import fast, problem
from mc.c11 import same_data

fast.memo_grammars()

PROPERTY, LEVEL = "C13", "model_checking"
ASSUMPTIONS = ["the continuation from a single per-run file can use the history held in that file only (moving averages start anew)",
               "np.random.choice([0, 1000]) is the source of randomness of the random algorithm; its answers are scripted"]
BOUNDS = {
    "quick": "every capacity pattern over {0, small, half, full} at 3 elements and every sequence of 3 runs over 3 or 4 patterns, 4 algorithms, thresholds {0, 0.1, 0.5, 1}, 9 tracking choices; real runs of up to 4 alternatives with every split point, crash point and write fault",
    "thorough": "every pattern at 4 elements, every sequence of 3 runs over 7 patterns, thresholds up to 2, both interfaces for every family, 6 alternatives",
}
CASE_TIMEOUT = 400
DIR = str(pathlib.Path(__file__).parent / "data/c13") + "/"
ALGS = ["integer", "relative_deployment", "random", "evolving_average"]
EL = [("a", "p", "e"), ("b", "p", "e"), ("b", "r", "e"), ("b", "q", "e"), ("b", "q", "h"), ("a", "h", "h"), ("b", "d", "e"), ("b", "d", "h")]
CAPMAX = {"p": 20, "r": 16, "q": 10, "h": 8}
TS = "2005-01-01 00:00"
SLACK = 0.5


def both(par, d):
    return {"data": [x[-1] for x in d], "index": [list(x[:-1]) for x in d]} | par


# tracking: parameter name -> (definition, function of the element)
TRACK = {
    "none": (None, None, lambda e: True),
    "techs": ("trk", {"data": [True, True], "index": ["p", "h"], "dims": "techs"}, lambda e: e[1] in "ph"),
    "false": ("trk", {"data": [True, False, True, False], "index": ["p", "r", "h", "d"], "dims": "techs"}, lambda e: e[1] in "ph"),
    "allfalse": ("trk", {"data": [False, False], "index": ["p", "r"], "dims": "techs"}, lambda e: False),
    "node": ("trk", {"data": [True, True], "index": [["a", "p"], ["b", "q"]], "dims": ["nodes", "techs"]}, lambda e: e[:2] in (("a", "p"), ("b", "q"))),
    "nodefalse": ("trk", {"data": [True, False, True], "index": [["a", "p"], ["b", "p"], ["b", "q"]], "dims": ["nodes", "techs"]}, lambda e: e[:2] in (("a", "p"), ("b", "q"))),
    "carrier": ("trk", {"data": [True], "index": ["h"], "dims": "carriers"}, lambda e: e[2] == "h"),
    "name": ("label", {"data": ["aa", "False"], "index": ["q", "r"], "dims": "techs"}, lambda e: e[1] in "qr"),
    "num": ("track_num", {"data": [2, 1], "index": ["q", "p"], "dims": "techs"}, lambda e: e[1] in "qp"),
}


def definition(be, track="none", mode="spores", capmax="all", extra=None, objective="min_cost_optimisation", slack=SLACK):
    dd = {
        "demand": {"data": [10, 6], "index": [["e", TS], ["h", TS]], "dims": ["carriers", "timesteps"]},
        "price": {"data": [1, 2, 3.5, 1, 4], "index": [[n, t, "monetary"] for n, t in ("ap", "bp", "br", "bq", "ah")], "dims": ["nodes", "techs", "costs"]},
        "gain": {"data": [-1], "index": [["q", "e"]], "dims": ["techs", "carriers"]},
        "flow_cap_max": {"all": 20, "tech": {"data": list(CAPMAX.values()) + [50], "index": list(CAPMAX) + ["d"], "dims": "techs"},
                         "some": {"data": [20, 16], "index": ["p", "r"], "dims": "techs"},
                         "inf": {"data": [20, 16, math.inf, 8], "index": ["p", "r", "q", "h"], "dims": "techs"}, "none": None}[capmax],
        "spores_slack": slack,
    }
    if TRACK[track][0]:
        dd[TRACK[track][0]] = TRACK[track][1]
    dd.update(extra or {})
    return {
        "config": {"init": {"name": "x", "mode": mode, "math_paths": {"base": DIR + "base.yaml"}}, "build": {"backend": be, "ensure_feasibility": True, "objective": objective},
                   "solve": {"solver": "cbc" if be == "pyomo" else "gurobi", "zero_threshold": 0}},
        "techs": {"p": {"base_tech": "supply", "carrier_out": "e"}, "r": {"base_tech": "supply", "carrier_out": "e"},
                  "q": {"base_tech": "conversion", "carrier_in": "e", "carrier_out": "h"}, "h": {"base_tech": "supply", "carrier_out": "h"}, "d": {"base_tech": "demand", "carrier_in": ["e", "h"]}},
        "nodes": {"a": {"techs": {"p": None, "h": None}}, "b": {"techs": {"p": None, "r": None, "q": None, "d": None}}},
        "data_definitions": {k: v for k, v in dd.items() if v is not None},
    }


# -- recording and scripting -------------------------------------------------------------------------------------------
class Solver:
    """Replaces the solver call: records the problem held, and answers with the real or a scripted solution."""

    def __init__(self, be, script=None, fault=None):
        from calliope.backend.gurobi_backend_model import GurobiBackendModel
        from calliope.backend.pyomo_backend_model import PyomoBackendModel

        self.cls = PyomoBackendModel if be == "pyomo" else GurobiBackendModel
        self.script, self.fault = script, fault  # script: list of {element: cap} or "infeasible"; fault: call number
        self.calls, self.rand = [], []

    def __enter__(self):
        import calliope.model as mm

        self.orig, rec = self.cls._solve, self
        self.choice = np.random.choice

        def spy(self, *a, **k):
            n = len(rec.calls)
            p = problem.extract(self)
            if rec.fault == n:
                raise RuntimeError("solver crashed")
            if rec.script is None:
                r = rec.orig(self, *a, **k)
            elif rec.script[n] == "infeasible":
                r = xr.Dataset(attrs={"termination_condition": "infeasible"})
            else:
                r = scripted(self, rec.script[n])
            rec.calls.append((p, r.copy(deep=True)))
            return r

        def choice(opts, size=None, **k):
            # a fixed answer that depends on the position and on the scores asked for so far
            out = np.array([opts[(i * 7 + i // 3 + rec.k()) % 2] for i in range(int(np.prod(size)))]).reshape(size)
            rec.rand.append((list(opts), out))
            return out

        self.offset = 0
        self.cls._solve = spy
        mm.np.random.choice = choice
        return self

    def k(self):
        return self.offset + len(self.calls)

    def __exit__(self, *a):
        self.cls._solve = self.orig
        np.random.choice = self.choice


def scripted(backend, caps):
    inp = backend.inputs
    dims = ["nodes", "techs", "carriers"]
    base = xr.DataArray(np.full([inp.sizes[d] for d in dims], np.nan), dims=dims, coords={d: inp[d] for d in dims})
    for e, v in caps.items():
        base.loc[dict(zip(dims, e))] = v
    score = backend.get_parameter("spores_score", as_backend_objs=False)
    return xr.Dataset({
        "flow_cap": base, "spores_score_cumulative": score.fillna(0).where(inp.definition_matrix).broadcast_like(base),
        "spores_baseline_cost_tracked": backend.get_parameter("spores_baseline_cost", as_backend_objs=False),
        "min_cost_optimisation": xr.DataArray(40.0), "min_other": xr.DataArray(30.0)},
        attrs={"termination_condition": "optimal"})


# -- the reference ---------------------------------------------------------------------------------------------------
def caps_of(r):
    s = r["flow_cap"].transpose("nodes", "techs", "carriers").to_series().dropna()
    return {k: float(v) for k, v in s.items()}


def reference(alg, thr, tracked, capmax, old, hist, rand):
    """The score of each element after the runs `hist` (capacities, oldest first); `old`: the score so far."""
    last = hist[-1]
    trk = [e for e in EL if tracked(e)]
    new = {}
    if alg == "integer" or (alg == "evolving_average" and no_change(hist)):
        top = {}
        for e in trk:
            if e in last:
                top[e[2]] = max(top.get(e[2], -math.inf), last[e])
        for e in trk:
            new[e] = old.get(e, 0) + (1000 if e in last and last[e] > thr * top[e[2]] else 0)
        return new
    if alg == "relative_deployment":
        for e in trk:
            m = capmax(e)
            rel = last[e] / m if e in last and m is not None else math.nan
            new[e] = old.get(e, 0) + (rel if rel > thr else 0)
        return new
    if alg == "random":
        shape = rand
        for e in trk:
            new[e] = old.get(e, 0) + (shape[e] if e in last else 0)
        return new
    for e in trk:
        if any(e not in h for h in hist):
            new[e] = 0
            continue
        avg = sum(h[e] for h in hist) / len(hist)
        new[e] = 0 if avg == 0 else 1 / max(abs(avg - last[e]) / avg, 0.001)
    return new


def no_change(hist):
    last = hist[-1]
    return all(abs(sum(h[e] for h in hist) / len(hist) - last[e]) == 0 for e in last)


def objective_scores(p):
    """{element: coefficient of its capacity} of the problem held, or None if another objective is active."""
    name, sense, terms, const = p["objective"]
    if name != "min_spores" or sense != "min":
        return None
    out = {}
    for key, c in terms:
        (var, idx), = key
        if var == "flow_cap":
            d = dict(idx)
            out[d["nodes"], d["techs"], d["carriers"]] = c
    return out


def cost_limit(p):
    rows = [v for k, v in p["constraints"].items() if k[0] == "total_system_cost_max"]
    assert len(rows) <= 1
    return rows[0] if rows else None


def limit_of(row, ref_terms=None):
    """The limit on the total cost that the row states: fixed costs are on the right-hand side."""
    lb, terms, ub = row
    return ub if ub is not None else lb


def eq(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def cases(tier):
    t = tier == "thorough"
    yield ["script", "integer", "none", 0.1, "all", "gurobi", tier]
    for alg in ALGS:
        for track in TRACK:
            for thr in (0, 0.1, 0.5, 1) + ((2, 0.3) if t else ()):
                if alg in ("random", "evolving_average") and thr != 0.1:
                    continue
                if not t and thr != 0.1 and track not in ("none", "false", "node"):
                    continue
                for capmax in ("all", "tech") if alg == "relative_deployment" else ("all",):
                    yield ["script", alg, track, thr, capmax, "pyomo", tier]
                    if t:
                        yield ["script", alg, track, thr, capmax, "gurobi", tier]
    for alg in ALGS:
        for be in ("pyomo", "gurobi"):
            for track in ("none", "false", "node"):
                if not t and be == "gurobi" and track != "none":
                    continue
                yield ["split", alg, track, be, 6 if t else 4 if (be, track) == ("pyomo", "none") else 3]
        yield ["plan", alg, "pyomo", 3]
        yield ["crash", alg, "pyomo", 3]
    yield ["plan", "integer", "gurobi", 3]
    for be in ("pyomo", "gurobi"):
        for k in (0, 1, 2, 3):
            yield ["infeasible", be, k, 3]
            yield ["infeasible-continue", be, k, 3]
        yield ["options", be]
    yield ["writefault", "pyomo", 3]
    yield ["refuse", "pyomo"]
    yield ["shipped", "integer", "pyomo"]
    if t:
        for alg in ALGS:
            yield ["shipped", alg, "gurobi"]


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="c13_"))
        try:
            globals()["do_" + case[0].replace("-", "_")](case, res, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def load(*a, **k):
    import calliope

    return calliope.read_dict(definition(*a, **k))


def rand_of(rec, n, inputs):
    """The scripted random answer of update number n as {element: value}."""
    if n >= len(rec.rand):
        return None
    opts, arr = rec.rand[n]
    if sorted(opts) != [0, 1000]:
        return None
    da = xr.DataArray(arr, dims=["nodes", "techs", "carriers"], coords={d: inputs[d] for d in ("nodes", "techs", "carriers")})
    return {e: float(da.sel(nodes=e[0], techs=e[1], carriers=e[2])) for e in EL}


def judge(rec, alg, thr, track, capmax, inputs, old=None, hist=(), baseline=True):
    """Check the problems of all recorded calls; returns (message or None, final score)."""
    tracked = TRACK[track][2]
    cm = {"all": lambda e: 20, "tech": lambda e: CAPMAX.get(e[1], 50)}[capmax]
    score = dict(old or {})
    hist = list(hist)
    for n, (p, r) in enumerate(rec.calls):
        if baseline and n == 0:
            if p["objective"][0] != "min_cost_optimisation":
                return f"the baseline run minimises {p['objective'][0]}", score
            if (row := cost_limit(p)) is not None and limit_of(row) is not None and math.isfinite(limit_of(row)):
                return f"the baseline run has a cost limit of {limit_of(row)}", score
        else:
            upd = n - (1 if baseline else 0)
            score = reference(alg, thr, tracked, cm, score, hist, rand_of(rec, upd, inputs) if alg == "random" else None)
            got = objective_scores(p)
            if got is None:
                return f"run {n}: objective {p['objective'][0]} is active", score
            for e in EL:
                if e[1] == "d":
                    continue
                if not eq(got.get(e, 0), score.get(e, 0)):
                    return f"call {n}: the score of {e} in the objective is {got.get(e, 0)}, expected {score.get(e, 0)} after capacities {hist}", score
            if r.data_vars:
                cum = r["spores_score_cumulative"]
                for e in EL:
                    v = float(cum.sel(nodes=e[0], techs=e[1], carriers=e[2]))
                    if not eq(0 if math.isnan(v) else v, score.get(e, 0)):
                        return f"call {n}: reported score of {e} is {v}, expected {score.get(e, 0)}", score
        if r.data_vars:
            hist.append(caps_of(r))
    return None, score


# -- scripted solver -----------------------------------------------------------------------------------------------
LEVELS = [0, 0.02, 1, 10]
SEQ = [
    {("a", "p", "e"): 0, ("b", "p", "e"): 10, ("b", "r", "e"): 1, ("b", "q", "e"): 5, ("b", "q", "h"): 5, ("a", "h", "h"): 0},
    {("a", "p", "e"): 10, ("b", "p", "e"): 10, ("b", "r", "e"): 0, ("b", "q", "e"): 0, ("b", "q", "h"): 0, ("a", "h", "h"): 8},
    {("a", "p", "e"): 5, ("b", "p", "e"): 0, ("b", "r", "e"): 5, ("b", "q", "e"): 0.25, ("b", "q", "h"): 4, ("a", "h", "h"): 4},
    {("a", "p", "e"): 0, ("b", "p", "e"): 0, ("b", "r", "e"): 0, ("b", "q", "e"): 0, ("b", "q", "h"): 0, ("a", "h", "h"): 0},
    {("a", "p", "e"): 1, ("b", "p", "e"): 10, ("b", "r", "e"): 0.5, ("b", "q", "e"): 2, ("b", "q", "h"): 2},
    {("a", "p", "e"): 20, ("b", "p", "e"): 2, ("b", "r", "e"): 16, ("b", "q", "e"): 10, ("b", "q", "h"): 10, ("a", "h", "h"): 8},
    {("a", "p", "e"): 2, ("b", "p", "e"): 2, ("b", "r", "e"): 2, ("b", "q", "e"): 2, ("b", "q", "h"): 2, ("a", "h", "h"): 2},
]


def do_script(case, res, tmp):
    _, alg, track, thr, capmax, be, tier = case
    key = f"script:{alg}:{track}:{thr}:{capmax}:{be}"
    m = load(be, track, capmax=capmax)
    m.build()
    inputs = m.inputs.copy(deep=True)
    t = tier == "thorough"
    some = EL[:3] if not t else [*EL[:3], EL[5]]
    # one long run meets every capacity pattern; short ones meet every sequence of a few patterns
    rest = {EL[3]: 3, EL[4]: 4} | ({} if t else {EL[5]: 2})
    one = [[dict(zip(some, v)) | rest for v in itertools.product(LEVELS, repeat=len(some))]]
    pats = SEQ if t else SEQ[:4] if alg == "evolving_average" else SEQ[:3]
    seqs = [list(s) for s in itertools.product(pats, repeat=3)] if t or track in ("none", "false") and thr in (0.1, 0.5) else []
    for script in itertools.chain(one, seqs):
        n = len(script)
        with Solver(be, script + [script[0]]) as rec:  # the answer of the last call is not scored any more
            m.solve(force=True, spores={"number": n, "scoring_algorithm": alg, "score_threshold_factor": thr, "tracking_parameter": TRACK[track][0]})
        res.traces += 1
        msg, score = judge(rec, alg, thr, track, capmax, inputs)
        res.states += 1
        res.transitions += n
        res.outcome((sorted(score.items())))
        if msg:
            res.fail(key, msg)
            return
        if len(rec.calls) != n + 1 or m.results.spores.values.tolist() != list(range(n + 1)):
            res.fail(f"labels:{key}", f"{n} alternatives asked for: {len(rec.calls)} solver calls, labels {m.results.spores.values}")
            return
        for i, (p, r) in enumerate(rec.calls):
            if d := same_data(m.results.sel(spores=i, drop=True), r):
                res.fail(f"results:{key}", f"the results labelled {i} are not those of run {i}: {d}")
                return
            if i and not eq(limit_cost(p), 40 * (1 + SLACK)):
                res.fail(f"limit:{key}", f"run {i}: total cost is limited to {limit_cost(p)}, expected baseline 40 plus {SLACK}")
                return
    if d := same_data(m.inputs, inputs):
        res.fail(f"inputs:{key}", f"the inputs changed: {d}")
    res.sample = {"case": case, "runs": len(one) + len(seqs), "last score": {"/".join(e): v for e, v in score.items()}}


def limit_cost(p):
    row = cost_limit(p)
    if row is None:
        return math.inf
    lb, terms, ub = row
    # the row may be stored in either orientation
    t = {k: c for k, c in terms}
    some = next((c for k, c in t.items() if k[0][0] == "flow_cap"), 1)
    return (ub if some > 0 else -lb) if (ub if some > 0 else lb) is not None else math.inf


def do_split(case, res, tmp):
    """Uninterrupted run of n alternatives; stopped after k and continued, three ways."""
    import calliope

    _, alg, track, be, n = case
    key = f"split:{alg}:{track}:{be}"
    sp = {"scoring_algorithm": alg, "tracking_parameter": TRACK[track][0], "score_threshold_factor": 0.1}

    def model():
        m = load(be, track, capmax="tech")
        m.build()
        return m

    m = model()
    inputs = m.inputs.copy(deep=True)
    with Solver(be) as rec:
        m.solve(spores=sp | {"number": n, "save_per_spore_path": str(tmp / "full")})
    whole = m.results.copy(deep=True)
    res.traces += 1
    if msg := judge(rec, alg, 0.1, track, "tech", inputs)[0]:
        res.fail(key, msg)
        return
    base_cost = float(rec.calls[0][1]["min_cost_optimisation"])
    for i, (p, r) in enumerate(rec.calls):
        res.states += 1
        res.transitions += len(p["constraints"])
        if d := same_data(whole.sel(spores=i, drop=True), r):
            res.fail(f"results:{key}", f"results labelled {i} are not those of run {i}: {d}")
            return
        total = float(r["min_cost_optimisation"])
        if i and (not eq(limit_cost(p), base_cost * (1 + SLACK)) or total > base_cost * (1 + SLACK) + 1e-6):
            res.fail(f"limit:{key}", f"run {i}: cost {total}, limit {limit_cost(p)}, expected {base_cost * (1 + SLACK)}")
            return
        res.outcome((i, sorted(caps_of(r).items())))
    if whole.spores.values.tolist() != list(range(n + 1)):
        res.fail(f"labels:{key}", f"labels {whole.spores.values}")
        return
    if msg := files_hold(tmp / "full", whole, range(n + 1)):
        res.fail(f"files:{key}", msg)
        return
    for way in ("memory", "reload", "file"):
        for k in range(1, n):
            res.traces += 1
            m = model()
            d = tmp / f"{way}{k}"
            with Solver(be) as rec1:
                m.solve(spores=sp | {"number": k, "save_per_spore_path": str(d)})
            first = 0
            if way == "reload":
                m.to_netcdf(tmp / f"{k}.nc")
                m = calliope.read_netcdf(tmp / f"{k}.nc")
                m.build()
            if way == "file":
                last = calliope.read_netcdf(d / f"spore_{k}.nc")
                m = calliope.Model(inputs=load(be, track, capmax="tech").inputs, results=last.results, attrs=last.all_attrs)
                m.build()
                first = k
            with Solver(be) as rec2:
                rec2.offset = k + 1
                m.solve(force=True, spores=sp | {"number": n, "use_latest_results": True, "save_per_spore_path": str(d)})
            if rec2.rand:
                pass
            want = whole.sel(spores=list(range(first, n + 1)))
            if way == "file" and alg == "evolving_average":
                hist = [caps_of(whole.sel(spores=k, drop=True))]
                msg, _ = judge(rec2, alg, 0.1, track, "tech", inputs, old=score_at(whole, k), hist=hist, baseline=False)
                if msg:
                    res.fail(f"{way}:{key}", f"continued after {k}: {msg}")
                    return
                continue
            if diff := same_data(m.results, want):
                msg = f"stopped after {k} and continued ({way}): differs from the uninterrupted run: {diff}"
                if len(rec2.calls) != n - k:
                    msg += f"; {len(rec2.calls)} solver calls instead of {n - k}"
                res.fail(f"{way}:{key}", msg)
                return
            if [limit_cost(p) for p, _ in rec2.calls] != [limit_cost(p) for p, _ in rec.calls[k + 1:]]:
                res.fail(f"{way}:limit:{key}", f"continued after {k}: cost limits {[limit_cost(p) for p, _ in rec2.calls]} instead of {[limit_cost(p) for p, _ in rec.calls[k + 1:]]}")
                return
            if msg := files_hold(d, whole, range(n + 1)):
                res.fail(f"{way}:files:{key}", f"continued after {k}: {msg}")
                return


def score_at(whole, k):
    s = whole.sel(spores=k, drop=True)["spores_score_cumulative"].to_series().dropna()
    return {i: float(v) for i, v in s.items()}


def files_hold(d, whole, runs, inputs_in_first=True):
    """The per-run files are exactly those of the runs, each with the results of its run; else a message."""
    import calliope

    want = {f"spore_{i}.nc" for i in runs}
    have = {f.name for f in d.glob("*")} if d.exists() else set()
    if want != have:
        return f"files {sorted(have)}, expected {sorted(want)}"
    for i in runs:
        m = calliope.read_netcdf(d / f"spore_{i}.nc")
        if m.results.spores.values.tolist() != [i]:
            return f"spore_{i}.nc holds runs {m.results.spores.values}"
        if diff := same_data(m.results, whole.sel(spores=[i])):
            return f"spore_{i}.nc does not hold the results of run {i}: {diff}"


def do_plan(case, res, tmp):
    """Starting from the results of a base-mode model is the same as running the baseline."""
    import calliope

    _, alg, be, n = case
    key = f"plan:{alg}:{be}"
    sp = {"scoring_algorithm": alg, "number": n}
    m = load(be, capmax="tech")
    m.build()
    with Solver(be) as rec:
        m.solve(spores=sp)
    whole = m.results.copy(deep=True)
    b = load(be, capmax="tech", mode="base")
    b.build()
    b.solve()
    for way in ("memory", "file"):
        res.traces += 1
        if way == "file":
            b.to_netcdf(tmp / "b.nc")
            b2 = calliope.read_netcdf(tmp / "b.nc")
        else:
            b2 = b
        m2 = calliope.Model(inputs=b2.inputs, results=b2.results, attrs=b2.all_attrs, mode="spores")
        m2.build()
        with Solver(be) as rec2:
            rec2.offset = 1
            m2.solve(force=True, spores=sp | {"use_latest_results": True})
        res.states += len(rec2.calls)
        res.transitions += len(rec2.calls)
        for i, ((p, r), (p2, r2)) in enumerate(itertools.zip_longest(rec.calls[1:], rec2.calls, fillvalue=(None, None))):
            if p is None or p2 is None:
                res.fail(f"calls:{key}", f"{way}: {len(rec2.calls)} solver calls instead of {n}")
                return
            if d := problem.diff(p2, p):
                res.fail(f"{way}:{key}", f"run {i + 1} continued from base-mode results differs from the one after a baseline run (continued != whole): {d}")
                return
            if d := same_data(m2.results.sel(spores=i + 1, drop=True), r):
                res.fail(f"{way}:{key}", f"results {i + 1}: {d}")
                return
        for v in b.results.data_vars:
            if d := same_data(m2.results.sel(spores=0, drop=True)[[v]], b.results[[v]]):
                res.fail(f"{way}:base:{key}", f"baseline results changed: {d}")
                return


def do_crash(case, res, tmp):
    """The solver crashes in call j of a run: the files of the completed runs exist, and the run can be continued from the last."""
    import calliope

    _, alg, be, n = case
    key = f"crash:{alg}:{be}"
    sp = {"scoring_algorithm": alg, "number": n}
    m = load(be, capmax="tech")
    m.build()
    with Solver(be) as rec:
        m.solve(spores=sp)
    whole = m.results.copy(deep=True)
    for j in range(n + 1):
        res.traces += 1
        res.states += 1
        d = tmp / f"c{j}"
        m = load(be, capmax="tech")
        m.build()
        with Solver(be, fault=j) as rec1:
            try:
                m.solve(spores=sp | {"save_per_spore_path": str(d)})
                res.fail(key, f"a crash in solver call {j} is not reported")
                return
            except RuntimeError as e:
                if "solver crashed" not in str(e):
                    raise
        if m.results.data_vars or m.is_solved:
            res.fail(key, f"crash in call {j}: the model claims to have results")
            return
        if msg := files_hold(d, whole, range(j)):
            res.fail(f"files:{key}", f"crash in call {j}: {msg}")
            return
        # the same model simply runs again
        with Solver(be) as rec2:
            m.solve(spores=sp)
        if diff := same_data(m.results, whole):
            res.fail(f"again:{key}", f"run again after a crash in call {j}: {diff}")
            return
        if j == 0 or (alg == "evolving_average" and j > 1):
            continue
        last = calliope.read_netcdf(d / f"spore_{j - 1}.nc")
        m = calliope.Model(inputs=load(be, capmax="tech").inputs, results=last.results, attrs=last.all_attrs)
        m.build()
        with Solver(be) as rec3:
            rec3.offset = j
            m.solve(force=True, spores=sp | {"use_latest_results": True, "save_per_spore_path": str(d)})
        res.transitions += len(rec3.calls)
        if diff := same_data(m.results, whole.sel(spores=list(range(j - 1, n + 1)))):
            res.fail(f"continue:{key}", f"continued after a crash in call {j}: {diff}")
            return
        if msg := files_hold(d, whole, range(n + 1)):
            res.fail(f"files:{key}", f"continued after a crash in call {j}: {msg}")
            return


def do_writefault(case, res, tmp):
    """Every single file write of a run fails in turn: the files left are exactly those of completed runs."""
    import calliope
    import calliope.io as cio

    _, be, n = case
    key = f"writefault:{be}"
    sp = {"number": n}
    m = load(be, capmax="tech")
    m.build()
    m.solve(spores=sp)
    whole = m.results.copy(deep=True)
    orig = cio.save_netcdf
    k = 0
    while True:
        count = 0

        def faulty(*a, **kw):
            nonlocal count
            count += 1
            if count == k + 1:
                raise OSError("disk full")
            return orig(*a, **kw)

        d = tmp / f"w{k}"
        cio.save_netcdf = faulty
        try:
            m.solve(force=True, spores=sp | {"save_per_spore_path": str(d)})
            failed = False
        except OSError:
            failed = True
        finally:
            cio.save_netcdf = orig
        res.states += 1
        res.traces += 1
        res.transitions += count
        if not failed:
            break
        names = sorted(f.name for f in d.glob("*")) if d.exists() else []
        whole_files = [f"spore_{i}.nc" for i in range(len(names))]
        if [x for x in names if x.endswith(".nc")] != whole_files[: sum(x.endswith(".nc") for x in names)]:
            res.fail(f"gap:{key}", f"write {k} failed: files {names}")
            return
        for i, f in enumerate(x for x in names if x.endswith(".nc")):
            try:
                mm = calliope.read_netcdf(d / f)
                if diff := same_data(mm.results, whole.sel(spores=[i])):
                    raise ValueError(diff)
                if len(mm.config.init.name or "") == 0 or mm.runtime.termination_condition is None and False:
                    raise ValueError("no configuration")
            except Exception as e:
                res.fail(key, f"write {k} failed: {f} is left behind incomplete: {type(e).__name__} {str(e)[:200]}")
                return
        if diff := same_data(m.results, whole):
            res.fail(f"memory:{key}", f"write {k} failed: the previous results in memory changed: {diff}")
            return
        k += 1
    res.outcome(("writes", k))
    if k < n + 1:
        res.fail(f"count:{key}", f"only {k} writes for {n + 1} runs")


def do_infeasible(case, res, tmp):
    """The solver finds no solution in run k: the alternatives before it are kept, labelled and saved."""
    import calliope

    _, be, k, n = case
    key = f"infeasible:{be}:{k}"
    m = load(be, capmax="tech")
    m.build()
    script = SEQ[:3] + SEQ[:3]
    script = [*script[:k], "infeasible", *script[k:]]
    res.traces += 1
    res.states += k + 1
    res.transitions += k + 1
    with Solver(be, script) as rec:
        try:
            m.solve(spores={"number": n, "save_per_spore_path": str(tmp / "f")})
            raised = None
        except calliope.exceptions.ModelError as e:
            raised = e
    if k == 0:
        if raised is None:
            res.fail(key, "no error although the baseline is infeasible")
        elif m.is_solved or m.results.data_vars:
            res.fail(key, "a failed baseline leaves results")
        elif msg := files_hold(tmp / "f", None, []):
            res.fail(key, msg)
        return
    if raised:
        res.fail(key, f"run {k} infeasible: {raised}")
        return
    if len(rec.calls) != k + 1:
        res.fail(key, f"run {k} is infeasible, yet {len(rec.calls)} solver calls were made")
        return
    if m.results.spores.values.tolist() != list(range(k)):
        res.fail(key, f"run {k} is infeasible, results are labelled {m.results.spores.values}")
        return
    for i in range(k):
        if d := same_data(m.results.sel(spores=i, drop=True), rec.calls[i][1]):
            res.fail(key, f"results {i}: {d}")
            return
    if msg := files_hold(tmp / "f", m.results, range(k)):
        res.fail(f"files:{key}", msg)


def do_infeasible_continue(case, res, tmp):
    """Run k infeasible, then continued (e.g. with more slack): gives what the uninterrupted run gives."""
    _, be, k, n = case
    if k == 0:
        return
    key = f"infeasible-continue:{be}:{k}"
    m = load(be, capmax="tech")
    m.build()
    script = [*SEQ[:3], SEQ[4]]
    with Solver(be, script) as rec:
        m.solve(spores={"number": n})
    whole = m.results.copy(deep=True)
    m = load(be, capmax="tech")
    m.build()
    res.traces += 1
    res.states += n
    with Solver(be, [*script[:k], "infeasible"]) as rec:
        m.solve(spores={"number": n})
    with Solver(be, script[k:]) as rec2:
        rec2.offset = k
        m.solve(force=True, spores={"number": n, "use_latest_results": True})
    res.transitions += n + 2
    if d := same_data(m.results, whole):
        res.fail(key, f"continued after an infeasible run {k}: {d}")


def do_options(case, res, tmp):
    """Slack values, cost classes, objectives, numbers: the limit is the baseline cost plus slack; two runs are the same."""
    _, be = case
    for slack in (0, 0.1, 1):
        for n in (1, 2):
            for objective in ("min_cost_optimisation", "min_other"):
                key = f"options:{be}:{slack}:{n}:{objective}"
                m = load(be, capmax="tech", slack=slack, objective=objective)
                m.build()
                with Solver(be) as rec:
                    m.solve(spores={"number": n})
                res.traces += 1
                res.states += n + 1
                first = m.results.copy(deep=True)
                if not m.results.sizes.get("spores"):
                    # the cost of the design that is best for the other objective need not allow any
                    continue
                base = float(rec.calls[0][1][objective])
                if rec.calls[0][0]["objective"][0] != objective:
                    res.fail(key, f"the baseline minimises {rec.calls[0][0]['objective'][0]}")
                    return
                for i, (p, r) in enumerate(rec.calls[1:], 1):
                    if not eq(limit_cost(p), base * (1 + slack)):
                        res.fail(key, f"run {i}: cost limit {limit_cost(p)}, expected {base * (1 + slack)}")
                        return
                with Solver(be) as rec2:
                    m.solve(force=True, spores={"number": n})
                res.transitions += 2 * n
                for i, ((p, r), (p2, r2)) in enumerate(itertools.zip_longest(rec.calls, rec2.calls, fillvalue=(None, None))):
                    if p is None or p2 is None or (d := (problem.diff(p2, p) if i else None) or same_data(r2, r)):
                        res.fail(f"again:{key}", f"run {i} of the repeated run differs: {len(rec2.calls)} calls {d}")
                        return
                if d := same_data(m.results, first):
                    res.fail(f"again:{key}", f"the repeated run differs: {d}")
                    return
    # a baseline cost given as input limits the cost of the alternatives
    key = f"options:given:{be}"
    m = load(be, capmax="tech", extra={"spores_baseline_cost": 30})
    m.build()
    with Solver(be) as rec:
        m.solve(spores={"number": 2})
    if [limit_cost(p) for p, _ in rec.calls[1:]] != [45.0, 45.0]:
        res.fail(key, f"a given baseline cost of 30 with slack {SLACK} limits the cost to {[limit_cost(p) for p, _ in rec.calls]}")


def do_refuse(case, res, tmp):
    """Settings that cannot be scored are refused; nothing to continue is refused."""
    import calliope

    E = calliope.exceptions
    be = case[1]
    for capmax, track, bad in (("none", "none", True), ("inf", "none", True), ("inf", "techs", False), ("inf", "node", True), ("tech", "none", False), ("some", "none", True), ("some", "num", True)):
        m = load(be, track, capmax=capmax)
        m.build()
        res.traces += 1
        res.states += 1
        res.transitions += 1
        script = [SEQ[0]] * 3
        try:
            with Solver(be, script):
                m.solve(spores={"number": 2, "scoring_algorithm": "relative_deployment", "tracking_parameter": TRACK[track][0]})
            raised = False
        except E.BackendError:
            raised = True
        res.outcome((capmax, track, raised))
        if raised != bad:
            res.fail(f"refuse:{capmax}:{track}", f"relative_deployment with flow_cap_max {capmax}, tracking {track}: {'refused' if raised else 'accepted'}")
    # nothing left to do
    m = load(be)
    m.build()
    with Solver(be, [SEQ[0]] * 9):
        m.solve(spores={"number": 2})
        before = m.results.copy(deep=True)
        for n in (0, 1, 2):
            try:
                m.solve(force=True, spores={"number": n, "use_latest_results": True})
                res.fail(f"refuse:number:{n}", f"continuing 2 alternatives up to {n} is accepted")
            except E.ModelError:
                pass
            if d := same_data(m.results, before):
                res.fail(f"refuse:keep:{n}", d)
    m = load(be)
    m.build()
    with Solver(be, [SEQ[0]] * 9):
        try:
            m.solve(spores={"number": 2, "use_latest_results": True})
            res.fail("refuse:nothing", "continuing without results is accepted")
        except E.ModelError:
            pass


def do_shipped(case, res, tmp):
    """The shipped math: scores, limit and continuation on a system of the library."""
    import calliope
    from mc import systems

    _, alg, be = case
    key = f"shipped:{alg}:{be}"

    def model(mode="spores"):
        d = systems.definition(["bat", "pv", "twofuel"] if "pv" in systems.F and "twofuel" in systems.F else ["bat"], backend=be) if False else systems.definition(["bat"], backend=be)
        d["config"]["init"]["mode"] = mode
        d["config"]["build"]["ensure_feasibility"] = True
        d["data_definitions"]["spores_slack"] = 0.4
        for t in d["techs"].values():
            t["flow_cap_max"] = t.get("flow_cap_max", 50)
        m = calliope.read_dict(d)
        m.build()
        return m

    m = model()
    sp = {"scoring_algorithm": alg}
    with Solver(be) as rec:
        m.solve(spores=sp | {"number": 2})
    whole = m.results.copy(deep=True)
    res.traces += 2
    base = float(rec.calls[0][1]["min_cost_optimisation"])
    for i, (p, r) in enumerate(rec.calls):
        res.states += 1
        if i and float(r["min_cost_optimisation"]) > base * 1.4 + 1e-6:
            res.fail(key, f"run {i} costs {float(r['min_cost_optimisation'])}, baseline {base}")
            return
        if alg == "integer" and i:
            got = objective_scores(p)
            prev = [caps_of(q) for _, q in rec.calls[:i]]
            want = {}
            for h in prev:
                top = {}
                for e, v in h.items():
                    top[e[2]] = max(top.get(e[2], 0), v)
                for e, v in h.items():
                    if v > 0.1 * top[e[2]]:
                        want[e] = want.get(e, 0) + 1000
            if {k: v for k, v in got.items() if v} != want:
                res.fail(key, f"run {i}: scores {got}, expected {want}")
                return
    m = model()
    with Solver(be) as rec1:
        m.solve(spores=sp | {"number": 1})
    with Solver(be) as rec2:
        rec2.offset = 2
        m.solve(force=True, spores=sp | {"number": 2, "use_latest_results": True})
    res.transitions += 2
    if problem.diff(rec2.calls[0][0], rec.calls[2][0]):
        res.fail(f"split:{key}", f"continued run: {problem.diff(rec2.calls[0][0], rec.calls[2][0])}")
