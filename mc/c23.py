"""C23: the model is a function of its definition.

order:  every permutation (up to four entries) or every swap, rotation and reversal (more entries) of every listing of a rich
        definition - nodes, technologies, technologies of a node, inputs of an entry, rows of indexed inputs, data tables and their
        rows, columns and options, templates, overrides, math files and math components, carriers, sections - gives the same
        inputs and the same problem; pairs of listings in the thorough tier.
seeds:  a fixed list of hash seeds, each in a fresh process: the same inputs, problem, results and saved attributes.
lives:  every interleaving of the life cycles (load, build, solve) of two models in one process, each compared with the model alone.
keep:   the dictionaries, tables and files given to a model after loading, building and solving it.
"""
from __future__ import annotations

import copy
import hashlib
import itertools
import json
import math
import os
import pathlib
import subprocess
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc import fast, problem, systems

if not os.environ.get("MC_FRESH"):
    fast.memo_grammars()

PROPERTY, LEVEL = "C23", "exploration"
RULE = "order: the listing really changed; seeds: a seed other than the reference; lives: steps of the two models alternate; keep: the object is not empty"
ASSUMPTIONS = ["global expressions and post-processed arrays that use each other are listed in the order they need (documented)",
               "labelled arrays are compared: the order of labels along a dimension other than timesteps is free between different listings, not between hash seeds",
               "results are compared between hash seeds and between interleavings (same definition, same solver), not between listings, where degenerate optima may differ"]
BOUNDS = {
    "quick": "one rich definition (templates, overrides, scenario, data tables, links with computed distances, custom math, MILP): every listing x all permutations (<= 3 entries) or all swaps of neighbours, rotations by one and reversal; 3 hash seeds x 7 systems; 20 interleavings x 3 pairs of models; 8 systems for changes of the caller's objects",
    "thorough": "all permutations of 4 entries, all swaps and rotations of more; pairs of listings (reversals and rotations); 48 hash seeds; 15 pairs of models",
}
CASE_TIMEOUT = 600
TS = ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-01 02:00", "2005-01-01 03:00"]
INF = math.inf


def idx(v, i, d):
    return {"data": v, "index": i, "dims": d}


# --- the rich definition ---------------------------------------------------------------------------

def rich():
    d = {
        "config": {"init": {"name": "rich", "extra_math": ["milp", "mine", "yours"], "subset": {"nodes": ["a", "b", "c"]}}, "build": {"ensure_feasibility": True}, "solve": {"solver": "cbc", "zero_threshold": 1e-9}},
        "templates": {
            "power": {"carrier_out": "e", "flow_cap_max": 6, "cost_flow_out": idx([1, 3], [["monetary"], ["co2"]], ["costs"])},
            "cheap": {"template": "power", "lifetime": 10, "cost_flow_cap": idx([2], [["monetary"]], ["costs"])},
            "wire": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "flow_cap_max": 8},
        },
        "techs": {
            "gen": {"template": "cheap", "base_tech": "supply", "name": "Generator", "flow_out_eff": 0.9},
            "chp": {"base_tech": "conversion", "carrier_in": ["g", "w"], "carrier_out": ["e", "h"], "flow_cap_max": idx([5, 3], ["e", "h"], "carriers"), "flow_out_eff": idx([0.5, 0.25], ["h", "e"], "carriers"),
                    "cap_method": "integer", "purchased_units_max": 1, "cost_purchase": idx(2, "monetary", "costs")},
            "gas": {"base_tech": "supply", "carrier_out": "g", "cost_source_cap": idx([1, 0.5], ["monetary", "co2"], "costs")},
            "wood": {"base_tech": "supply", "carrier_out": "w", "source_use_max": 1},
            "bat": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "storage_cap_max": 5, "flow_cap_max": 2, "storage_initial": 0.5},
            "dem": {"base_tech": "demand", "carrier_in": "e"},
            "heat": {"base_tech": "demand", "carrier_in": "h", "color": "#123456"},
            "ab": {"template": "wire", "link_from": "a", "link_to": "b"},
            "bc": {"template": "wire", "link_from": "c", "link_to": "b", "one_way": True},
            "ac": {"base_tech": "transmission", "carrier_in": "h", "carrier_out": "h", "link_from": "a", "link_to": "c", "distance": 4},
        },
        "nodes": {
            "a": {"latitude": 10, "longitude": 20, "techs": {"gen": {"flow_cap_max": 4}, "gas": None, "chp": None, "bat": None}},
            "b": {"latitude": 11, "longitude": 20.5, "techs": {"dem": None, "gen": None}},
            "c": {"latitude": 10.5, "longitude": 22, "techs": {"heat": None, "wood": None, "dem": {"sink_unit": "absolute"}}},
            "z": {"latitude": 1, "longitude": 2, "techs": {"dem": None}},
        },
        "data_definitions": {
            "objective_cost_weights": idx([1, 0.5], ["monetary", "co2"], "costs"),
            "flow_cap_max_systemwide": idx([9, 7], ["gen", "gas"], "techs"),
            "bigM": 500,
            "mine_share": idx([0.5, 0.25], [["gen"], ["chp"]], ["techs"]),
            "source_use_min": idx([0.1, 0.2, 0, 0], [["a", "gas", t] for t in TS], ["nodes", "techs", "timesteps"]),
        },
        "data_tables": {
            "sinks": {"table": "sinks", "rows": "timesteps", "columns": ["nodes", "techs"], "add_dims": {"inputs": "sink_use_equals"}},
            "sources": {"table": "sources", "rows": ["techs", "costs"], "columns": "inputs", "select": {"costs": ["monetary", "co2"]}},
            "areas": {"table": "areas", "rows": "nodes", "columns": "inputs"},
        },
        "overrides": {
            "big": {"techs": {"bat": {"storage_cap_max": 7}, "gas": {"source_cap_max": 20}, "sun": {"base_tech": "supply", "carrier_out": "h", "flow_cap_max": 1}}, "nodes": {"c": {"techs": {"sun": None}}}},
            "loss": {"techs": {"bat": {"storage_loss": 0.1}, "wind": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 1}}, "nodes": {"b": {"techs": {"gen": {"lifetime": 5}, "wind": None}}}},
            "unused": {"techs": {"gen": {"flow_cap_max": 0}}},
        },
        "scenarios": {"both": ["big", "loss"], "other": ["unused"]},
    }
    sinks = pd.DataFrame({("b", "dem"): [1.0, 2, 1, 2], ("c", "dem"): [0.5, 0, 0.5, 0.25], ("c", "heat"): [0.2, 0.4, 0.6, 0]}, index=pd.Index(TS, name="timesteps"))
    sinks.columns.names = ["nodes", "techs"]
    sources = pd.DataFrame({"cost_interest_rate": [0.1, 0.05, 0.1], "cost_storage_cap": [1, 2, 3.0]},
                           index=pd.MultiIndex.from_tuples([("gen", "monetary"), ("bat", "co2"), ("bat", "monetary")], names=["techs", "costs"]))
    sources.columns.name = "inputs"
    areas = pd.DataFrame({"available_area": [3.0, 4, 5], "extra_thing": [1.0, 2, 3]}, index=pd.Index(["a", "b", "c"], name="nodes"))
    areas.columns.name = "inputs"
    mine = {
        "parameters": {"mine_share": {"default": 0, "resample_method": "mean"}, "extra_thing": {"default": 1}},
        "variables": {"mine_extra": {"foreach": ["nodes", "techs"], "where": "mine_share", "bounds": {"min": 0, "max": 3}},
                      "mine_slack": {"foreach": ["nodes"], "bounds": {"min": 0, "max": INF}}},
        "global_expressions": {"mine_sum": {"foreach": ["nodes"], "where": "any(mine_extra, over=techs)", "equations": [{"expression": "sum(mine_extra, over=techs) + extra_thing"}], "order": 5},
                               "mine_other": {"foreach": ["nodes", "techs"], "where": "mine_share", "equations": [{"expression": "mine_extra * mine_share"}]}},
        "constraints": {"mine_one": {"foreach": ["nodes"], "where": "mine_sum", "equations": [{"where": "extra_thing>1", "expression": "mine_sum <= 10"}, {"where": "extra_thing<=1", "expression": "mine_sum <= $limit"}],
                                     "sub_expressions": {"limit": [{"expression": "8 + mine_slack"}]}},
                        "mine_two": {"foreach": ["nodes", "techs"], "where": "mine_share", "equations": [{"expression": "mine_extra >= 0.5 * mine_other"}]},
                        "balance_demand": {"active": True}},
    }
    yours = {"constraints": {"yours_cap": {"foreach": ["techs"], "where": "[gen, gas] in techs", "equations": [{"expression": "sum(flow_cap, over=[nodes, carriers]) <= 30"}]}},
             "variables": {"yours_var": {"foreach": ["carriers"], "bounds": {"min": 0, "max": 1}}}}
    return {"d": d, "dfs": {"sinks": sinks, "sources": sources, "areas": areas}, "math": {"mine": mine, "yours": yours}, "scenario": "both"}


def load(sys_, **kw):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(sys_["d"], scenario=sys_.get("scenario"), override_dict=sys_.get("override"), math_dict=sys_.get("math"), data_table_dfs=sys_.get("dfs"), **kw)


def build(m, **kw):
    return systems.build(m, **kw)


# --- comparable forms ------------------------------------------------------------------------------

def labelled(ds):
    """Dataset as {name: (dtype kind, {index: value})}; timesteps keep their order."""
    out = {}
    for n, da in ds.data_vars.items():
        out[n] = (da.dtype.kind, tuple(sorted(da.dims)), {k: problem.item(v) for k, v in problem.elements(da).items()})
    for n, c in ds.coords.items():
        vals = [str(problem.item(x)) for x in np.atleast_1d(c.values)]
        out[f"dim {n}"] = (c.dtype.kind, tuple(c.dims), vals if n == "timesteps" else sorted(vals))
    return out


def same(a, b):
    """Differences of two labelled() forms."""
    out = []
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        if x != y:
            out.append(f"{n}: {_brief(x, y)}")
    return out


def _brief(x, y):
    if x is None or y is None:
        return "only in one of them"
    if x[:2] != y[:2]:
        return f"{x[:2]} / {y[:2]}"
    if isinstance(x[2], dict):
        ks = [k for k in set(x[2]) | set(y[2]) if x[2].get(k) != y[2].get(k)][:2]
        return "; ".join(f"{k}: {x[2].get(k)} / {y[2].get(k)}" for k in ks)
    return f"{x[2]} / {y[2]}"


def exact(ds):
    """Text of a dataset with the order of everything in it."""
    rows = []
    for n, da in sorted(ds.variables.items(), key=lambda kv: str(kv[0])):
        rows.append((str(n), str(da.dims), str(da.dtype), [str(x) for x in np.asarray(da.values).ravel().tolist()]))
    return repr(rows)


# --- order -----------------------------------------------------------------------------------------

def sites():
    """name -> (number of entries, function(system, permutation))"""
    out = {}

    def dict_site(name, get):
        def put(s, perm):
            x = get(s)
            items = [list(x.items())[i] for i in perm]
            x.clear()
            x.update(items)
        out[name] = (lambda s: len(get(s)), put)

    def list_site(name, get):
        def put(s, perm):
            x = get(s)
            x[:] = [x[i] for i in perm]
        out[name] = (lambda s: len(get(s)), put)

    def rows_site(name, get):
        def put(s, perm):
            x = get(s)
            for k in ("data", "index"):
                x[k] = [x[k][i] for i in perm]
        out[name] = (lambda s: len(get(s)["data"]), put)

    D = lambda *path: (lambda s: _at(s["d"], path))
    M = lambda *path: (lambda s: _at(s["math"], path))
    dict_site("sections", D())
    for sec in ("config", "templates", "techs", "nodes", "data_definitions", "data_tables", "overrides", "scenarios"):
        dict_site(sec, D(sec))
    for t in ("gen", "chp", "bat", "ab", "bc"):
        dict_site(f"tech {t}", D("techs", t))
    dict_site("template power", D("templates", "power"))
    dict_site("template cheap", D("templates", "cheap"))
    for n in "abc":
        dict_site(f"node {n}", D("nodes", n))
        dict_site(f"techs of {n}", D("nodes", n, "techs"))
    dict_site("override loss", D("overrides", "loss"))
    dict_site("override big techs", D("overrides", "big", "techs"))
    list_site("scenario", D("scenarios", "both"))
    list_site("carriers in", D("techs", "chp", "carrier_in"))
    list_site("carriers out", D("techs", "chp", "carrier_out"))
    list_site("subset", D("config", "init", "subset", "nodes"))
    list_site("extra math", D("config", "init", "extra_math"))
    dict_site("config init", D("config", "init"))
    for n in ("objective_cost_weights", "flow_cap_max_systemwide", "mine_share", "source_use_min"):
        rows_site(f"rows {n}", D("data_definitions", n))
    rows_site("rows flow_cap_max", D("techs", "chp", "flow_cap_max"))
    rows_site("rows cost", D("templates", "power", "cost_flow_out"))
    dict_site("keys of a definition", D("data_definitions", "source_use_min"))

    def dims_of_definition(s, perm):
        x = s["d"]["data_definitions"]["source_use_min"]
        x["dims"] = [x["dims"][i] for i in perm]
        x["index"] = [[row[i] for i in perm] for row in x["index"]]
    out["dims of a definition"] = (lambda s: 3, dims_of_definition)
    for t in ("sinks", "sources"):
        dict_site(f"table {t}", D("data_tables", t))
    list_site("table select", D("data_tables", "sources", "select", "costs"))

    def df_site(name, t, axis):
        def put(s, perm):
            df = s["dfs"][t]
            s["dfs"][t] = df.iloc[list(perm)] if axis == 0 else df.iloc[:, list(perm)]
        out[name] = (lambda s: s["dfs"][t].shape[axis], put)
    for t in ("sinks", "sources", "areas"):
        for axis in (0, 1):
            if (t, axis) != ("sinks", 0):
                df_site(f"{t} axis {axis}", t, axis)

    def levels(t, axis):  # the definition has to list the levels in the order of the table
        def put(s, perm):
            df = s["dfs"][t]
            s["dfs"][t] = df.reorder_levels(list(perm), axis=axis)
            x = s["d"]["data_tables"][t]["columns" if axis else "rows"]
            x[:] = [x[i] for i in perm]
        out[f"levels of {t}"] = (lambda s: 2, put)
    levels("sinks", 1)
    levels("sources", 0)
    dict_site("tables given", lambda s: s["dfs"])
    dict_site("math files", M())
    for g in ("", "parameters", "variables", "global_expressions", "constraints"):
        dict_site(f"math {g or 'groups'}", M("mine", g) if g else M("mine"))
    dict_site("math yours", M("yours"))
    dict_site("math constraint", M("mine", "constraints", "mine_one"))
    list_site("math equations", M("mine", "constraints", "mine_one", "equations"))
    list_site("math foreach", M("mine", "variables", "mine_extra", "foreach"))
    dict_site("math equation", M("mine", "constraints", "mine_one", "equations", 0))
    return out


def _at(x, path):
    for p in path:
        x = x[p]
    return x


def perms(n, every):
    """All orders of up to three (four) entries; every swap (of neighbours), rotation and the reversal of more."""
    base = list(range(n))
    if n <= (4 if every else 3):
        return [list(p) for p in itertools.permutations(base)][1:]
    out = []
    for i, j in itertools.combinations(range(n), 2):
        if j > i + 1 and not every:
            continue
        p = list(base)
        p[i], p[j] = p[j], p[i]
        out.append(p)
    out += [base[k:] + base[:k] for k in (range(1, n) if every else (1, n - 1))] + [base[::-1]]
    return out


_ref = {}


def reference():
    if "rich" not in _ref:
        m = load(rich())
        ident = identity(m)
        build(m)
        _ref["rich"] = labelled(m.inputs), problem.extract(m.backend)
        _ref["built"] = {ident}
    return _ref["rich"]


def identity(m):
    """Everything a build starts from, with the order of everything in it."""
    attrs = m.dump_all_attrs()
    return hashlib.md5((exact(m.inputs) + repr(list(m.inputs.data_vars)) + repr([(n, da.attrs) for n, da in m.inputs.variables.items()]) + repr(attrs["math"]) + repr(attrs["config"])).encode()).hexdigest()


def run_order(changes, res):
    s = rich()
    all_sites = sites()
    for name, perm in changes:
        all_sites[name][1](s, perm)
    key = ";".join(f"{n}:{''.join(map(str, p))}" for n, p in changes)
    what = " and ".join(f"{n} listed in the order {p}" for n, p in changes)
    ref_in, ref_p = reference()
    res.evaluations += 1
    res.nontrivial += 1
    m = load(s)
    d = same(ref_in, labelled(m.inputs))
    if d:
        res.fail(f"order_inputs:{changes[0][0]}", f"{what}: other inputs: {d[:3]}", {"key": key})
    ident = identity(m)
    if ident in _ref["built"]:
        res.counts["same start of the build"] += 1
        return
    _ref["built"].add(ident)
    d = problem.diff(ref_p, problem.extract(build(m).backend))
    if d:
        res.fail(f"order_problem:{changes[0][0]}", f"{what}: another problem: {d[:3]}", {"key": key})
    res.outcome(key)


# --- systems for the other parts -------------------------------------------------------------------

def feat(*features, backend="pyomo", mode=None, change=None, math_=None, scenario=None, ts=systems.TS):
    d = systems.definition(features, ts=ts, backend=backend)
    d["config"]["init"]["mode"] = mode or "base"
    if mode == "operate":
        d["config"]["build"]["operate"] = {"window": "2h", "horizon": "3h"}
        d["techs"]["gen"]["flow_cap"] = d["techs"]["loc"]["flow_cap"] = d["techs"]["line"]["flow_cap"] = 9
        d["techs"]["dem"]["flow_cap"] = 9
    if mode == "spores":
        d["config"]["solve"]["spores"] = {"number": 2}
    if change:
        change(d)
    return {"d": d, "math": math_, "scenario": scenario}


FOUR = systems.TS + ["2005-01-01 03:00", "2005-01-01 04:00"]


def longer(d, data=(2, 4, 3, 2, 3)):
    d["data_definitions"]["sink_use_equals"].update(data=list(data), index=[["dem", "b", t] for t in FOUR])


def unsolvable_window(d):
    longer(d, (2, 4, 3, 99, 2))
    d["config"]["build"]["ensure_feasibility"] = False
    d["config"]["build"]["operate"] = {"window": "2h", "horizon": "2h"}


def twice(d):
    d["techs"]["gen"]["cost_flow_out"]["data"] = 2
    d["techs"]["gen"].update(carrier_out="x")
    d["techs"]["loc"]["carrier_out"] = ["e"]
    d["techs"]["dx"] = {"base_tech": "demand", "carrier_in": "x"}
    d["nodes"]["a"]["techs"]["dx"] = None


OWN = {"own": {"constraints": {"balance_demand": {"active": False}}, "parameters": {"flow_cap_max": {"default": 7}}, "variables": {"flow_out": {"bounds": {"max": 6}}},
               "global_expressions": {"cost": {"active": True}}}}
OTHER = {"own": {"constraints": {"own_limit": {"foreach": ["techs"], "where": "base_tech==supply", "equations": [{"expression": "sum(flow_cap, over=[nodes, carriers]) <= 8"}]}}}}


def own(d):
    d["config"]["init"]["extra_math"].append("own")


SYSTEMS = {
    "plain": lambda: feat(),
    "bat": lambda: feat("bat", "bat_cyclic"),
    "rich": rich,
    "operate": lambda: feat(mode="operate", ts=FOUR, change=longer),
    "operate_odd": lambda: feat(mode="operate", ts=FOUR, change=unsolvable_window),
    "spores": lambda: feat("bat", mode="spores"),
    "res2h": lambda: feat("bat", "res2h", ts=FOUR[:4]),
    "milp": lambda: feat("milp_units", "milp_purchase"),
    "gurobi": lambda: feat("bat", backend="gurobi"),
    "own": lambda: feat(change=own, math_=copy.deepcopy(OWN)),
    "own_other": lambda: feat(change=own, math_=copy.deepcopy(OTHER)),
    "twice": lambda: feat("bat", change=twice),
}
SEED_SYSTEMS = ["plain", "rich", "operate", "operate_odd", "spores", "milp", "res2h"]
PAIRS = [("plain", "own"), ("operate", "plain"), ("gurobi", "twice")]
MORE_PAIRS = [("own", "own_other"), ("milp", "twice"), ("gurobi", "bat"), ("plain", "plain"), ("rich", "bat"), ("spores", "operate"), ("rich", "own"), ("gurobi", "gurobi"), ("milp", "rich"), ("res2h", "bat"), ("twice", "plain"), ("operate", "operate")]
KEEP = ["plain", "rich", "operate", "spores", "milp", "own", "res2h", "gurobi"]


def solve(m, **kw):
    return systems.solve(m, **kw)


def digest(name):
    """What hash seeds must not change, in a fresh process."""
    s = SYSTEMS[name]()
    m = load(s)
    out = {"inputs": exact(m.inputs)}
    build(m)
    p = problem.extract(m.backend)
    out["problem"] = repr(_plain(p))
    solve(m)
    out["results"] = exact(m.results)
    out["condition"] = str(m.runtime.termination_condition)
    attrs = m.dump_all_attrs()
    attrs.get("runtime", {}).pop("timings", None)
    out["attributes"] = repr(_plain(_drop(attrs)))
    with tempfile.TemporaryDirectory() as tmp:
        m.backend.to_lp(os.path.join(tmp, "x.lp"))
        out["file"] = "\n".join(sorted(l for l in pathlib.Path(tmp, "x.lp").read_text().splitlines() if "\\" not in l))
    return {k: hashlib.md5(v.encode()).hexdigest() + ":" + v[:200_000] for k, v in out.items()}


def _drop(x):
    if isinstance(x, dict):
        return {k: _drop(v) for k, v in x.items() if k not in ("timings", "timestamps")}
    return x


def _plain(v):
    if isinstance(v, dict):
        return sorted((repr(_plain(k)), _plain(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return sorted(repr(_plain(x)) for x in v)
    if isinstance(v, (tuple, list)):
        return [_plain(x) for x in v]
    return v


def child():
    """python -m mc.c23 NAME...: print the digests as JSON."""
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    real = os.dup(1)
    os.dup2(2, 1)
    got = {n: digest(n) for n in sys.argv[1:]}
    os.write(real, json.dumps(got).encode() if False else b"")
    with os.fdopen(real, "w") as f:
        json.dump(got, f)


def in_process(seed, names):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), OMP_NUM_THREADS="1", MC_FRESH="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from mc import c23; c23.child()", *names], env=env, cwd=pathlib.Path(__file__).resolve().parent.parent, capture_output=True, text=True, timeout=400)
    if r.returncode:
        raise RuntimeError(r.stderr[-800:])
    return json.loads(r.stdout)


def run_seeds(seeds, names, res):
    ref = in_process(0, names)
    for seed in seeds:
        got = in_process(seed, names)
        for n in names:
            res.evaluations += 1
            res.nontrivial += 1
            for part, text in ref[n].items():
                if got[n][part] != text:
                    a, b = text, got[n][part]
                    k = next((i for i, (x, y) in enumerate(zip(a[33:], b[33:])) if x != y), 0) + 33
                    res.fail(f"seed:{n}:{part}", f"{part} of system {n} depend on the hash seed (0 / {seed}): ...{a[max(33, k - 60):k + 60]}... / ...{b[max(33, k - 60):k + 60]}...", {"seed": seed})
                res.outcome((n, part, text[:32]))


# --- lives -----------------------------------------------------------------------------------------

STEPS = ("load", "build", "solve")


def observe(m):
    out = {"inputs": exact(m.inputs)}
    if m.is_built:
        out["problem"] = problem.extract(m.backend)
    if m.is_solved:
        out["results"] = exact(m.results)
        out["condition"] = str(m.runtime.termination_condition)
    attrs = _drop(m.dump_all_attrs())
    out["attributes"] = repr(attrs)
    return out


def step(what, name, m):
    if what == "load":
        return load(SYSTEMS[name]())
    if what == "build":
        return build(m)
    return solve(m)


def alone(name):
    if ("alone", name) not in _ref:
        seen, m = [], None
        for what in STEPS:
            m = step(what, name, m)
            seen.append(observe(m))
        _ref["alone", name] = seen
    return _ref["alone", name]


def run_lives(pair, order, res):
    ref = [alone(n) for n in pair]
    models, at = [None, None], [0, 0]
    for who in order:
        models[who] = step(STEPS[at[who]], pair[who], models[who])
        at[who] += 1
        for w in (0, 1):  # the model at work, and both in the end
            if w == who or sum(at) == 6:
                res.evaluations += 1
                got, want = observe(models[w]), ref[w][at[w] - 1]
                for part in want:
                    bad = problem.diff(want[part], got[part]) if part == "problem" else [] if got.get(part) == want[part] else [_where(want[part], got.get(part, ""))]
                    if bad:
                        res.fail(f"lives:{pair[w]} beside {pair[1 - w]}:{part}", f"{part} of {pair[w]} (model {w}) differ beside {pair[1 - w]} after the steps {order[:sum(at)]}: {bad[:2]}")
    res.nontrivial += 1
    res.outcome((pair, order))


def _where(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, k - 80):k + 60]}... / ...{b[max(0, k - 80):k + 60]}..."


def orders():
    return sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1))))


# --- keep ------------------------------------------------------------------------------------------

def frozen(x):
    """Contents with types and order."""
    if isinstance(x, dict):
        return (type(x).__name__, [(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return (type(x).__name__, x.to_csv(), str(getattr(x, "dtypes", "")), list(x.index.names), list(getattr(x, "columns", pd.Index([])).names), str(x.index.dtype))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    return (type(x).__name__, repr(x))


def thaw_diff(a, b, path=""):
    if a == b:
        return []
    if a[0] != b[0]:
        return [f"{path}: {a[0]} became {b[0]}"]
    if isinstance(a[1], list) and isinstance(b[1], list) and a[0] in ("dict", "AttrDict", "list", "tuple"):
        if a[0] in ("dict", "AttrDict"):
            ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
            if ka != kb:
                return [f"{path}: entries {ka} became {kb}"]
            return [x for (k, u), (_, v) in zip(a[1], b[1]) for x in thaw_diff(u, v, f"{path}.{k}")]
        if len(a[1]) == len(b[1]):
            return [x for i, (u, v) in enumerate(zip(a[1], b[1])) for x in thaw_diff(u, v, f"{path}[{i}]")]
    return [f"{path}: {str(a)[:80]} became {str(b)[:80]}"]


def run_keep(name, form, res):
    import calliope

    s = SYSTEMS[name]()
    s.setdefault("override", {"techs": {"loc" if name != "rich" else "bat": {"lifetime": 20}}})
    s["d"].setdefault("overrides", {})["ov"] = {"config": {"init": {"name": "renamed"}}}
    s["override"]["overrides"] = {"more": {"config": {"init": {"name": "renamed again"}}}}
    s["override"]["scenarios"] = {"some": ["more"]}
    if name == "rich":
        s["override"]["data_tables"] = {"areas": {"rows": ["nodes"]}}
    if form == "attr":
        s["d"] = calliope.AttrDict(copy.deepcopy(s["d"]))
        s["override"] = calliope.AttrDict(s["override"])
        s["math"] = calliope.AttrDict(s["math"]) if s.get("math") else None
    what = {k: v for k, v in s.items() if v is not None}
    before = {k: frozen(v) for k, v in what.items()}

    def check(stage):
        for k, v in what.items():
            res.evaluations += 1
            res.nontrivial += 1
            d = thaw_diff(before[k], frozen(v), k)
            if d:
                res.fail(f"keep:{k}:{stage}:{form}", f"system {name}: {stage} changes the {k} it was given: {d[:3]}")

    m = load(s)
    check("loading")
    build(m)
    check("building")
    solve(m)
    check("solving")
    m.inputs["flow_cap_max"] = m.inputs["flow_cap_max"] * 2
    m.build(force=True)
    check("rebuilding")
    # loading once more from the same objects gives the same model
    a, b = load(s), load(s)
    if exact(a.inputs) != exact(b.inputs) or repr(_drop(a.dump_all_attrs())) != repr(_drop(b.dump_all_attrs())):
        res.fail(f"keep:again:{form}", f"system {name}: loading the same objects once more gives another model")
    res.outcome((name, form))


def run_files(res):
    """A model in YAML and CSV files, loaded, built, solved and saved beside them."""
    import calliope

    s = rich()
    with tempfile.TemporaryDirectory() as tmp:
        root = pathlib.Path(tmp)
        for n, df in s["dfs"].items():
            df.to_csv(root / f"{n}.csv")
            s["d"]["data_tables"][n]["table"] = f"{n}.csv"
        for n in ("mine", "yours"):
            calliope.AttrDict(s["math"][n]).to_yaml(root / f"{n}.yaml") if hasattr(calliope.AttrDict, "to_yaml") else calliope.io.to_yaml(s["math"][n], path=root / f"{n}.yaml")
        s["d"]["config"]["init"]["math_paths"] = {"mine": "mine.yaml", "yours": "yours.yaml"}
        nodes = {"nodes": s["d"].pop("nodes")}
        s["d"]["import"] = ["nodes.yaml"]
        dump(nodes, root / "nodes.yaml")
        dump(s["d"], root / "model.yaml")
        before = {p.name: p.read_bytes() for p in sorted(root.iterdir())}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = calliope.read_yaml(root / "model.yaml", scenario="both")
        build(m)
        solve(m)
        res.evaluations += len(before)
        res.nontrivial += len(before)
        after = {p.name: p.read_bytes() for p in sorted(root.iterdir())}
        if after != before:
            res.fail("keep:files", f"files changed or added: {[n for n in set(after) | set(before) if after.get(n) != before.get(n)]}")
        d = same(reference()[0], labelled(m.inputs))
        if d:
            res.fail("files:inputs", f"the definition in files gives other inputs than the one in memory: {d[:3]}")
        d = problem.diff(reference()[1], problem.extract(m.backend))
        if d:
            res.fail("files:problem", f"the definition in files gives another problem than the one in memory: {d[:3]}")


def dump(d, path):
    import ruamel.yaml

    with open(path, "w") as f:
        y = ruamel.yaml.YAML(typ="safe")
        y.dump(d, f)


# --- cases -----------------------------------------------------------------------------------------

def cases(tier):
    thorough = tier == "thorough"
    out = []
    seeds = list(range(1, 49)) if thorough else [1, 2, 3]
    groups = [SEED_SYSTEMS[:2], SEED_SYSTEMS[2:4], SEED_SYSTEMS[4:5], SEED_SYSTEMS[5:]]
    for g in groups:
        for k in range(0, len(seeds), 3):
            out.append(["seeds", seeds[k:k + 3], g])
    for pair in PAIRS + (MORE_PAIRS if thorough else []):
        todo = orders()
        for k in range(0, len(todo), 7):
            out.append(["lives", list(pair), [list(o) for o in todo[k:k + 7]]])
    for n in KEEP:
        out += [["keep", n, "dict"], ["keep", n, "attr"]] if thorough or n in ("rich", "own", "milp") else [["keep", n, "dict"]]
    out.append(["files"])
    names = sites()
    s = rich()
    for n, (size, _) in names.items():
        todo = perms(size(s), thorough)
        for k in range(0, len(todo), 6):
            out.append(["order", [[[n, p]] for p in todo[k:k + 6]]])
    if thorough:
        few = {n: [p for p in (list(range(size(s)))[::-1], list(range(1, size(s))) + [0])] for n, (size, _) in names.items() if size(s) > 1}
        pairs = [[[a, p], [b, q]] for a, b in itertools.combinations(few, 2) for p in few[a] for q in few[b][:1]]
        out += [["order", pairs[k:k + 12]] for k in range(0, len(pairs), 12)]
    return out


def run_case(case, res):
    kind = case[0]
    if kind == "order":
        for changes in case[1]:
            run_order(changes, res)
    elif kind == "seeds":
        run_seeds(case[1], case[2], res)
    elif kind == "lives":
        for o in case[2]:
            run_lives(tuple(case[1]), tuple(o), res)
    elif kind == "keep":
        run_keep(case[1], case[2], res)
    else:
        run_files(res)
    res.sample = {"case": str(case)[:200], "evaluated": res.evaluations}
