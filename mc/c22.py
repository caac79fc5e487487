"""C22: definitions are refused exactly when they break a documented check, and a refused build leaves nothing behind.

one:   every setting of ATOMS (sound, faulty and boundary values, at a technology, at one of its nodes, per cost class, carrier or
       time step, on something switched off or placed nowhere) alone, in every mode, with the complete built-in math.
two:   every pair of settings, in every mode; the checks only (all other math components switched off: they come after the checks).
again: a built problem, a faulty input written into the model, and a forced rebuild: refused, the built problem stays as it was.

The oracle is `expected`: the documented rules written out in plain Python over the merged definition of each technology at each node.
"""
from __future__ import annotations

import copy
import itertools
import math
import warnings

import pandas as pd

from mc import fast

fast.memo_grammars()

PROPERTY, LEVEL = "C22", "exploration"
RULE = "one/two: at least one of the settings breaks (or only just satisfies) a documented rule; again: all"
ASSUMPTIONS = ["values the schema refuses while loading count as refused; which of several schema errors is reported first is not checked",
               "settings of technologies that exist nowhere in the model are not part of it",
               "two settings of the same input at the same place are not combined"]
BOUNDS = {
    "quick": "all single settings x 6 modes (full math for plan mode, checks only for the others; spores and inter-cluster only where a rule is broken); pairs of settings of the same rule, pairs with switched-off items and pairs of one faulty setting per rule, in one mode each (modes in which neither setting matters are skipped)",
    "thorough": "all single settings x 6 modes with full math; all pairs x 6 modes",
}
CASE_TIMEOUT = 300
TS = [f"2005-01-0{d} {h:02d}:00" for d in (1, 2) for h in (0, 12)]
MODES = ["base", "spores", "milp", "operate", "clustered", "inter"]
INF = math.inf
BLOCK = 12


def idx(v, i, d):
    return {"data": v, "index": i, "dims": d}


def base():
    return {
        "config": {"init": {"name": "sys", "broadcast_input_data": True}, "solve": {"solver": "cbc"}},
        "techs": {
            "s": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 10},
            "g": {"base_tech": "supply", "carrier_out": "g", "source_use_max": 5},
            "c": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": ["e", "h"]},
            "bat": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "flow_cap_max": 3, "cyclic_storage": False},
            "d": {"base_tech": "demand", "carrier_in": "e"},
            "dh": {"base_tech": "demand", "carrier_in": "h"},
            "l": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b"},
            "off": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "active": False},
            "lost": {"base_tech": "supply", "carrier_out": "e"},
        },
        "nodes": {
            "a": {"techs": {"s": {}, "g": None, "c": {}, "bat": {}, "dh": None, "off": None}},
            "b": {"techs": {"s": {"flow_cap_max": 4}, "bat": {}, "d": {}}},
        },
        "data_definitions": {},
    }


def money(v):
    return idx(v, "monetary", "costs")


def two_costs(a, b):
    return idx([a, b], ["monetary", "co2"], "costs")


# (name, place, input, value); place: (tech,), (node, tech), ("node", node) or () for data_definitions; value None removes the input
T = lambda *dims: list(dims)
ATOMS = [
    # base technology
    ("nobase", ("s",), "base_tech", None),
    ("badbase", ("s",), "base_tech", "source"),
    # negative costs and bounds
    ("neg_flow", ("s",), "cost_flow_cap", money(-1)),
    ("neg_flow_zero", ("s",), "cost_flow_cap", money(0)),
    ("neg_flow_co2", ("s",), "cost_flow_cap", two_costs(1, -1)),
    ("neg_flow_at", ("b", "s"), "cost_flow_cap", money(-1)),
    ("neg_flow_off", ("off",), "cost_flow_cap", money(-1)),
    ("neg_flow_lost", ("lost",), "cost_flow_cap", money(-1)),
    ("neg_flow_link", ("l",), "cost_flow_cap", money(-1)),
    ("neg_flow_carriers", ("c",), "cost_flow_cap", idx([-1, 1], [["monetary", "e"], ["monetary", "h"]], ["costs", "carriers"])),
    ("max_carriers_e", ("c",), "flow_cap_max", idx(7, "e", "carriers")),
    ("max_carriers_h", ("c",), "flow_cap_max", idx(7, "h", "carriers")),
    ("nomax", ("s",), "flow_cap_max", None),
    ("infmax", ("s",), "flow_cap_max", INF),
    ("infmax_at", ("b", "s"), "flow_cap_max", INF),
    ("nomax_at", ("b", "s"), "flow_cap_max", None),
    ("zeromax_at", ("a", "s"), "flow_cap_max", 0),
    ("max_link", ("l",), "flow_cap_max", 6),
    ("neg_sto", ("bat",), "cost_storage_cap", money(-1)),
    ("neg_sto_at", ("b", "bat"), "cost_storage_cap", money(-0.001)),
    ("max_sto", ("bat",), "storage_cap_max", 8),
    ("max_sto_at", ("a", "bat"), "storage_cap_max", 8),
    ("infmax_sto_at", ("b", "bat"), "storage_cap_max", INF),
    ("neg_area", ("s",), "cost_area_use", money(-1)),
    ("max_area", ("s",), "area_use_max", 2),
    ("max_area_at", ("a", "s"), "area_use_max", 2),
    ("neg_source", ("g",), "cost_source_cap", money(-1)),
    ("max_source", ("g",), "source_cap_max", 2),
    ("neg_run", ("s",), "cost_flow_out", money(-1)),
    # infinite requirements
    ("inf_source", ("g",), "source_use_equals", INF),
    ("fin_source", ("g",), "source_use_equals", 2),
    ("inf_sink", ("d",), "sink_use_equals", INF),
    ("inf_sink_max", ("d",), "sink_use_max", INF),
    ("inf_sink_off", ("off",), "sink_use_equals", INF),
    ("inf_once", (), "sink_use_equals", idx([1, 1, INF, 1], [["b", "d", t] for t in TS], T("nodes", "techs", "timesteps"))),
    ("inf_elsewhere", (), "sink_use_equals", idx([1, 1, INF, 1], [["a", "d", t] for t in TS], T("nodes", "techs", "timesteps"))),
    # distances
    ("dist", ("s",), "distance", 5),
    ("dist_zero", ("s",), "distance", 0),
    ("dist_link", ("l",), "distance", 5),
    ("dist_at", ("a", "bat"), "distance", 5),
    ("dist_off", ("off",), "distance", 5),
    ("in_eff", ("bat",), "flow_in_eff_per_distance", 0.9),
    ("out_eff", ("c",), "flow_out_eff_per_distance", 0.9),
    ("out_eff_link", ("l",), "flow_out_eff_per_distance", 0.9),
    ("cost_dist", ("c",), "cost_flow_cap_per_distance", money(1)),
    ("cost_dist_link", ("l",), "cost_flow_cap_per_distance", money(1)),
    # coordinates
    ("coord_a", ("node", "a"), "latitude longitude", [10, 20]),
    ("coord_b", ("node", "b"), "latitude longitude", [11.5, 20.5]),
    ("coord_b_mixed", ("node", "b"), "latitude longitude", [11, 20.5]),
    ("lat_a", ("node", "a"), "latitude", 10),
    ("lat_b_wild", ("node", "b"), "latitude longitude", [90.5, 20]),
    ("lat_all", (), "latitude", idx([1, 2], ["a", "b"], "nodes")),
    ("lat_some", (), "latitude", idx(0, "a", "nodes")),
    ("lon_all", (), "longitude", idx([1, 2], ["a", "b"], "nodes")),
    ("lon_other", (), "longitude", idx(0, "b", "nodes")),
    # export
    ("exp_ok", ("s",), "carrier_export", "e"),
    ("exp_out", ("c",), "carrier_export", ["e", "h"]),
    ("exp_in", ("c",), "carrier_export", "g"),
    ("exp_mix", ("c",), "carrier_export", ["h", "g"]),
    ("exp_demand", ("d",), "carrier_export", "e"),
    ("exp_foreign", ("s",), "carrier_export", "h"),
    ("exp_bat", ("bat",), "carrier_export", "e"),
    ("exp_at", ("a", "c"), "carrier_export", "g"),
    # storage fraction
    ("ini_low", ("bat",), "storage_initial", -0.001),
    ("ini_zero", ("bat",), "storage_initial", 0),
    ("ini_one", ("bat",), "storage_initial", 1),
    ("ini_high", ("bat",), "storage_initial", 1.001),
    ("ini_at", ("b", "bat"), "storage_initial", 2),
    ("ini_off", ("off",), "storage_initial", 2),
    ("ini_lost", ("lost",), "storage_initial", 2),
    ("ini_inf", ("bat",), "storage_initial", INF),
    # warnings
    ("in_cost", ("s",), "cost_flow_in", money(1)),
    ("in_cost_at", ("b", "s"), "cost_flow_in", two_costs(0, 2)),
    ("in_cost_c", ("c",), "cost_flow_in", money(1)),
    ("out_cost", ("d",), "cost_flow_out", money(1)),
    ("out_cost_bat", ("bat",), "cost_flow_out", money(1)),
    ("depth", ("bat",), "storage_discharge_depth", 0.2),
    # storage over the horizon
    ("cyc", ("bat",), "cyclic_storage", True),
    ("cyc_default", ("bat",), "cyclic_storage", None),
    ("cyc_at", ("a", "bat"), "cyclic_storage", True),
    ("cyc_supply", ("s",), "cyclic_storage", True),
    ("nocyc_supply", ("s",), "cyclic_storage", False),
    ("sto_supply", ("s",), "include_storage", True),
    ("nosto_bat", ("bat",), "include_storage", False),
    ("cyc_off", ("off",), "cyclic_storage", True),
    # units
    ("unit", ("s",), "flow_cap_per_unit", 5),
    ("unit_c", ("c",), "flow_cap_per_unit", 5),
    ("unit_min_c", ("c",), "flow_cap_min", 1),
    ("unit_sto", ("bat",), "storage_cap_per_unit", 5),
    ("unit_sto_min", ("bat",), "storage_cap_min", 0),
    ("dispatch", ("c",), "integer_dispatch", True),
    ("nodispatch", ("c",), "integer_dispatch", False),
    ("dispatch_at", ("a", "c"), "integer_dispatch", True),
    ("integer", ("c",), "cap_method", "integer"),
    ("integer_at", ("a", "c"), "cap_method", "integer"),
    ("purch_dist", ("s",), "cost_purchase_per_distance", money(1)),
    ("purch_dist_link", ("l",), "cost_purchase_per_distance", money(1)),
    # existence
    ("off_s_a", ("a", "s"), "active", False),
    ("off_bat", ("bat",), "active", False),
    ("off_link", ("l",), "active", False),
    ("off_c", ("c",), "active", False),
]
BY_NAME = {a[0]: a for a in ATOMS}
SETS = {"base": [], "spores": [], "milp": ["milp"], "operate": [], "clustered": [], "inter": ["storage_inter_cluster"]}
# recorded findings: key -> what the oracle must be told to describe it; nothing else is excused
DEFECTS = {"export of a carrier the technology does not have": "export", "infinite requirement after the first window": "window", "cyclic_storage not given beside one that is": "cyclic"}


def apply(d, atoms):
    for name, place, key, value in atoms:
        if not place:
            d["data_definitions"][key] = value
            continue
        if place[0] == "node":
            at = d["nodes"][place[1]]
        elif len(place) == 1:
            at = d["techs"][place[0]]
        else:
            at = d["nodes"][place[0]]["techs"][place[1]]
        if " " in key:
            at.update(zip(key.split(), value))
        elif value is None:
            at.pop(key, None)
        else:
            at[key] = value
    return d


def clash(a, b):
    return bool(set(a[2].split()) & set(b[2].split())) and (a[1] == b[1] or not a[1] or not b[1])


# --- oracle: documented rules, one technology at one node at a time --------------------------------

def listify(x):
    return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]


def members(d):
    out = {}
    for n, x in d["nodes"].items():
        for t, o in x["techs"].items():
            m = {**d["techs"][t], **(o or {})}
            if m.get("active", True):
                out[n, t] = m
    for t, m in d["techs"].items():
        if m.get("base_tech") == "transmission" and m.get("active", True):
            out["a", t] = out["b", t] = m
    return out


def elems(m, name):
    """{((dim, label), ...): value} of an input, empty where it is not given."""
    v = m.get(name)
    if v is None:
        return {}
    if not isinstance(v, dict):
        return {(): v}
    dims, index, data = listify(v["dims"]), v["index"], v["data"]
    rows = [(index, data)] if not isinstance(data, list) else list(zip(index, data))
    return {tuple(zip(dims, listify(i))): x for i, x in rows}


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


def given(m, name):
    return any(finite(x) for x in elems(m, name).values())


def unbounded(m, cost, bound):
    caps = elems(m, bound)
    carriers = set(listify(m.get("carrier_in"))) | set(listify(m.get("carrier_out")))
    for at, c in elems(m, cost).items():
        if not c < 0:
            continue
        mine = dict(at).get("carriers")
        for carrier in [mine] if mine else carriers:  # a cost for all carriers needs a bound for all of them
            if not any(finite(x) and dict(k).get("carriers", carrier) == carrier for k, x in caps.items()):
                return True
    return False


def expected(d, mode, defects=()):
    """Names of the documented checks that are broken, or "schema" for what cannot be loaded."""
    for x in d["nodes"].values():
        lat, lon = x.get("latitude"), x.get("longitude")
        if (lat is None) != (lon is None) or (lat is not None and not -90 <= lat <= 90) or (lon is not None and not -180 <= lon <= 180):
            return {"schema"}
    if any(t["base_tech"] not in ("supply", "demand", "storage", "conversion", "transmission") for t in d["techs"].values() if t.get("base_tech")):
        return {"schema"}
    out = set()
    there = members(d)
    clustered, milp = mode in ("clustered", "inter"), mode == "milp"
    default = not ("cyclic" in defects and any("cyclic_storage" in m for m in there.values()))
    for (n, t), m in there.items():
        m = dict(m)
        for name, v in d["data_definitions"].items():
            if "techs" in listify(v["dims"]):
                for at, x in elems(d["data_definitions"], name).items():
                    if dict(at).get("nodes", n) == n and dict(at)["techs"] == t:
                        if not ("window" in defects and mode == "operate" and dict(at).get("timesteps", TS[0]) not in TS[:2]):
                            m.setdefault(name, []).append(x)
        if "base_tech" not in m:
            out.add("must_have_base")
        kind = m.get("base_tech")
        if kind != "transmission":
            if any(given(m, k) for k in ("distance", "flow_in_eff_per_distance", "flow_out_eff_per_distance", "cost_flow_cap_per_distance")):
                out.add("distance_only_for_transmission")
            if milp and given(m, "cost_purchase_per_distance"):
                out.add("distance_only_for_transmission_milp")
        for what, cost, bound in [("flow_cap", "cost_flow_cap", "flow_cap_max"), ("storage_cap", "cost_storage_cap", "storage_cap_max"),
                                  ("area_use", "cost_area_use", "area_use_max"), ("source_use", "cost_source_cap", "source_cap_max")]:
            if unbounded(m, cost, bound):
                out.add(f"unbounded_{what}_cost")
        for k in ("source_use_equals", "sink_use_equals"):
            if INF in listify(m[k] if not isinstance(m.get(k), dict) else m[k]["data"]) if k in m else False:
                out.add("finite_source_use")
        exports = set(listify(m.get("carrier_export")))
        if "export" in defects:
            exports &= set(listify(m.get("carrier_out"))) | set(listify(m.get("carrier_in")))
        if exports - set(listify(m.get("carrier_out"))):
            out.add("export_only_for_outflows")
        for x in elems(m, "storage_initial").values():
            if not 0 <= x <= 1:
                out.add("storage_initial_max")
        if kind == "supply" and given(m, "cost_flow_in"):
            out.add("flow_in_for_supply_tech")
        if kind == "demand" and given(m, "cost_flow_out"):
            out.add("flow_out_for_demand_tech")
        cyclic = m.get("cyclic_storage", default) and (kind == "storage" or m.get("include_storage") is True)
        if clustered and given(m, "storage_discharge_depth"):
            out.add("no_storage_discharge_depth_when_clustering")
        if mode == "clustered" and cyclic:
            out.add("cyclic_storage_needs_inter_cluster")
        if mode == "operate" and cyclic:
            out.add("operate_mode_cyclic_storage")
        if milp:
            if given(m, "flow_cap_per_unit") and (given(m, "flow_cap_max") or given(m, "flow_cap_min")):
                out.add("conflicting_flow_caps")
            if given(m, "storage_cap_per_unit") and (given(m, "storage_cap_max") or given(m, "storage_cap_min")):
                out.add("conflicting_storage_caps")
            if m.get("integer_dispatch") and m.get("cap_method", "continuous") != "integer":
                out.add("unit_commitment_only_for_units")
    here = {n for n, _ in there}
    coords = {k: {n for n in here if k in d["nodes"][n]} | {dict(at)["nodes"] for at in elems(d["data_definitions"], k)} & here for k in ("latitude", "longitude")}
    if any(coords.values()) and any(v != here for v in coords.values()):
        out.add("all_or_nothing_lat_lon")
    return out


WARN = {"flow_in_for_supply_tech", "flow_out_for_demand_tech", "no_storage_discharge_depth_when_clustering"}


# --- the code under test --------------------------------------------------------------------------

_quiet = {}


def quiet(mode):
    """All variables, expressions, constraints, objectives and result arrays of a mode switched off."""
    import calliope

    if mode not in _quiet:
        m = load(base(), mode)
        off = {}
        for group in ("variables", "global_expressions", "constraints", "piecewise_constraints", "objectives", "postprocessed"):
            names = list(m.math.build[group].root)
            if names:
                off[group] = {n: {"active": False} for n in names}
        _quiet[mode] = off
    return _quiet[mode]


def load(d, mode, extra=None):
    import calliope

    d = copy.deepcopy(d)
    init = d["config"]["init"]
    init["mode"] = mode if mode in ("spores", "operate") else "base"
    d["config"]["build"] = {"operate": {"window": "24h", "horizon": "24h"}} if mode == "operate" else {}
    init["extra_math"] = list(SETS[mode])
    kw = {}
    if extra:
        init["extra_math"].append("quiet")
        kw["math_dict"] = {"quiet": extra}
    df = pd.DataFrame({"steps": [1.0] * len(TS)}, index=pd.Index(TS, name="timesteps"))
    df.columns = pd.Index(["always"], name="inputs")
    dfs = {"always": df}
    d["data_tables"] = {"always": {"table": "always", "rows": "timesteps", "columns": "inputs"}}
    if mode in ("clustered", "inter"):
        reps = pd.DataFrame({"reps": ["2005-01-01", "2005-01-02"]}, index=pd.Index(["2005-01-01", "2005-01-02"], name="datesteps"))
        reps.columns = pd.Index(["reps"], name="inputs")
        init["time_cluster"] = "reps"
        dfs["reps"] = reps
        d["data_tables"]["reps"] = {"table": "reps", "rows": "datesteps", "columns": "inputs"}
    return calliope.read_dict(d, data_table_dfs=dfs, **kw)


def outcome(d, mode, full):
    """("schema", exc) | ("refused" | "accepted", {check: "raise" | "warn"}, model)"""
    import pydantic
    import calliope

    extra = None if full else quiet(mode)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = load(d, mode, extra)
        except (calliope.exceptions.ModelError, pydantic.ValidationError, ValueError, KeyError) as e:
            return "schema", f"{type(e).__name__}: {str(e)[:200]}", None
    texts = {n: c.message for n, c in m.math.build.checks.root.items() if c.active}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        err = ""
        try:
            m.build()
            what = "accepted"
        except calliope.exceptions.ModelError as e:
            what, err = "refused", str(e)
    said = "\n".join(str(w.message) for w in caught if issubclass(w.category, calliope.exceptions.ModelWarning))
    got = {n: "raise" for n, t in texts.items() if t.strip() in err}
    got |= {n: "warn" for n, t in texts.items() if t.strip() in said and n not in got}
    if what == "refused" and not got:
        raise AssertionError(f"build failed for another reason: {err[:300]}")
    return what, got, m


def judge(atoms, mode, full, res):
    d = apply(base(), atoms)
    want = expected(d, mode)
    names = "+".join(a[0] for a in atoms)
    key = f"{names}:{mode}"
    what, got, m = outcome(d, mode, full)
    res.evaluations += 1
    if want:
        res.nontrivial += 1
    res.outcome((mode, what, sorted(got) if isinstance(got, dict) else got[:40]))
    if want == {"schema"}:
        if what != "schema" and what != "refused":
            res.fail(f"schema:{key}", "a definition the schema does not allow was accepted", {"atoms": names})
        return
    if what == "schema":
        # the same fault may also be refused while loading
        if not want - WARN:
            res.fail(f"load:{key}", f"a sound definition cannot be loaded: {got}", {"atoms": names})
        return
    exp = {n: "warn" if n in WARN else "raise" for n in want}
    # a twin check gives its warning under the same text
    twins = {n: got[n] for n in got}
    if "distance_only_for_transmission" in twins and "distance_only_for_transmission" not in exp and "distance_only_for_transmission_milp" in exp:
        twins.pop("distance_only_for_transmission")
    if "distance_only_for_transmission_milp" in twins and "distance_only_for_transmission_milp" not in exp and "distance_only_for_transmission" in exp:
        twins.pop("distance_only_for_transmission_milp")
    for what_fails, defect in DEFECTS.items():
        told = {n: "warn" if n in WARN else "raise" for n in expected(d, mode, [defect])}
        if told != exp and twins != exp and set(twins) <= set(told):
            res.fail(what_fails, f"settings {names} in mode {mode}: not reported: {sorted(set(exp) - set(told))}", {"atoms": names})
            exp = {n: k for n, k in exp.items() if n in told}
    if twins != exp:
        missing = {n: k for n, k in exp.items() if twins.get(n) != k}
        extra = {n: k for n, k in twins.items() if exp.get(n) != k}
        res.fail(f"checks:{key}", f"settings {names} in mode {mode}: " + "; ".join(
            ([f"not reported: {missing}"] if missing else []) + ([f"wrongly reported: {extra}"] if extra else [])), {"atoms": names})
    bad = "raise" in exp.values()
    if bad != (what == "refused") and twins == exp:
        res.fail(f"refusal:{key}", f"settings {names} in mode {mode}: build was {what}, expected {exp}", {"atoms": names})
    if what == "refused":
        left(m, key, res)


def left(m, key, res):
    import calliope

    if m.is_built or hasattr(m, "backend"):
        res.fail(f"left:{key}", "a refused build leaves a built problem behind")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.solve()
    except calliope.exceptions.ModelError:
        return
    res.fail(f"solved:{key}", "a model whose build was refused can be solved")


def again(mode, full, res):
    """Sound model built; a faulty value written into its inputs; a forced rebuild is refused and the built problem is kept."""
    import calliope

    d = apply(base(), [BY_NAME["ini_one"]])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = load(d, mode, None if full else quiet(mode))
        m.build()
        backend, config, before = m.backend, m.config.model_dump(), {n: set(da.dims) for n, da in m.backend.variables.data_vars.items()}
        res.evaluations += 1
        res.nontrivial += 1
        m.inputs["storage_initial"] = m.inputs["storage_initial"] * 3
        try:
            m.build(force=True, ensure_feasibility=True)
            res.fail(f"again:{mode}", "a faulty input written into the model is not refused by a forced rebuild")
            return
        except calliope.exceptions.ModelError as e:
            res.outcome(str(e)[:60])
        if not m.is_built or m.backend is not backend or m.config.model_dump() != config:
            res.fail(f"again_left:{mode}", "a refused rebuild changes the built problem or the configuration it goes with")
        if {n: set(da.dims) for n, da in m.backend.variables.data_vars.items()} != before:
            res.fail(f"again_vars:{mode}", "a refused rebuild changes the variables of the built problem")
        m.inputs["storage_initial"] = m.inputs["storage_initial"] / 3
        m.build(force=True)
        if not m.is_built or m.backend is backend:
            res.fail(f"again_fixed:{mode}", "a corrected model is not rebuilt")


def matters(a):
    """Modes in which a setting can make a difference to the documented rules."""
    if a[2] in ("cyclic_storage", "include_storage"):
        return {"operate", "clustered", "inter"}
    if a[2] == "storage_discharge_depth":
        return {"clustered", "inter"}
    if a[2] in ("flow_cap_per_unit", "flow_cap_min", "storage_cap_per_unit", "storage_cap_min", "integer_dispatch", "cap_method", "cost_purchase_per_distance"):
        return {"milp"}
    return set(MODES)


GROUPS = [
    {"cost_flow_cap", "flow_cap_max", "flow_cap_min", "flow_cap_per_unit"},
    {"cost_storage_cap", "storage_cap_max", "storage_cap_min", "storage_cap_per_unit"},
    {"cost_area_use", "area_use_max"}, {"cost_source_cap", "source_cap_max"}, {"cost_flow_out", "cost_flow_in"},
    {"source_use_equals", "sink_use_equals", "sink_use_max"},
    {"distance", "flow_in_eff_per_distance", "flow_out_eff_per_distance", "cost_flow_cap_per_distance", "cost_purchase_per_distance"},
    {"latitude", "longitude", "latitude longitude"}, {"carrier_export"}, {"storage_initial"}, {"storage_discharge_depth"},
    {"cyclic_storage", "include_storage"}, {"integer_dispatch", "cap_method"}, {"base_tech"}, {"active"},
]
FIRST = ["neg_flow_link", "neg_sto_at", "neg_area", "neg_source", "in_cost", "inf_sink", "dist", "coord_a", "exp_in", "ini_at", "depth", "cyc_at", "dispatch", "nobase", "off_s_a"]


def group(a):
    return next(k for k, g in enumerate(GROUPS) if a[2] in g)


def close(a, b):
    """Pairs of the quick tier: settings of the same rule, whatever switches things off, and the first faulty setting of another rule."""
    ga, gb = group(a), group(b)
    if ga == gb:
        return True
    return a[0] in FIRST and b[0] in FIRST or "active" in (a[2], b[2]) and a[1] and b[1] and a[1][-1] == b[1][-1]


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for mode in MODES:
        names = [a[0] for a in ATOMS if thorough or mode not in ("spores", "inter") or expected(apply(base(), [a]), mode)]
        for k in range(0, len(names), 6):
            out.append(["one", mode, names[k:k + 6], thorough or mode == "base"])
        out.append(["again", mode])
    for i, a in enumerate(ATOMS):
        todo = [b[0] for b in ATOMS[i + 1:] if not clash(a, b) and (thorough or close(a, b))]
        if thorough:
            for mode in MODES:
                out += [["two", mode, a[0], todo[k:k + BLOCK]] for k in range(0, len(todo), BLOCK)]
        else:
            per = {}
            for k, b in enumerate(todo):
                modes = matters(a) & matters(BY_NAME[b]) or matters(a)
                modes = [m for m in MODES if m in modes]
                per.setdefault(modes[(i + k) % len(modes)], []).append(b)
            for mode, bs in per.items():
                out += [["two", mode, a[0], bs[k:k + BLOCK]] for k in range(0, len(bs), BLOCK)]
    return out


def run_case(case, res):
    kind, mode = case[:2]
    if kind == "one":
        for a in case[2]:
            judge([BY_NAME[a]], mode, case[3], res)
    elif kind == "again":
        again(mode, mode == "base", res)
    else:
        for b in case[3]:
            judge([BY_NAME[case[2]], BY_NAME[b]], mode, False, res)
    res.sample = {"case": case[:3], "evaluated": res.evaluations}
