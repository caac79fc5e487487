"""C18: the base formulation admits exactly the physically valid plans, at their true cost.

Every system of the families below is built by the real code; its rows are read back from the solver interface.  Two
explicit enumerations, layer by layer over partial plans on a grid of values, give all plans that satisfy the documented
rules (mc/plans.py) and all plans that satisfy the built rows: both sets and the cost of every plan must be equal.  The
solver's optimum must be a valid plan, cost what the rules say it costs and not more than any plan of the grid.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import fast, plans, problem, systems
from mc.plans import INF, C, K, T

fast.memo_grammars()

PROPERTY, LEVEL = "C18", "model_checking"
RULE = "systems with at least two valid plans and at least one refused plan of the grid"
ASSUMPTIONS = ["rules are restated in mc/plans.py from the documentation of the parameters, variables and constraints",
               "ramping limits the change of the hourly flow between two steps, whatever their duration (as documented: at each timestep)",
               "plans are compared on a finite grid of values that contains the vertices reached by the chosen efficiencies"]
BOUNDS = {"quick": "about 440 systems of 1-2 nodes, 1-3 steps; up to 3,000,000 partial plans per layer",
          "thorough": "about 2300 systems: all combinations of the parameter values of each family"}
CASE_TIMEOUT = 300
HOURS = {"1": [0], "2": [0, 1], "3": [0, 1, 2], "m": [0, 1, 3], "m2": [0, 2, 3]}

DOMAINS = {
    "flow_cap": [0, 1, 2], "link_flow_cap": [0, 1, 2, 4], "flow_out": [0, 0.5, 1, 2], "flow_in": [0, 0.5, 1, 2, 4], "flow_export": [0, 0.5, 1, 2], "area_use": [0, 1, 2, 4], "source_use": [0, 1, 2, 4],
    "source_cap": [0, 1, 2, 4], "storage_cap": [0, 2, 4], "storage": [0, 0.5, 1, 1.5, 2, 3, 4], "unmet_demand": [0, 1, 2], "unused_supply": [0, -1],
}


def domains(over=None):
    over = over or {}

    def f(k):
        name, idx = k
        tech = dict(idx).get("techs")
        return over.get((name, tech), over.get(name, DOMAINS[name]))
    return f


def sys_(techs, hours="2", nodes=None, **kw):
    """Single-node system with a sink that takes what it gets, unless a demand is given."""
    techs = dict(techs)
    if not any(p["base_tech"] == "demand" and "e" in plans.carriers(p["carrier_in"]) for p in techs.values()):
        techs["dem"] = {"base_tech": "demand", "carrier_in": "e"}
    return {"ts": plans.stamps(HOURS[hours]), "techs": techs, "nodes": nodes or {"a": {t: None for t in techs}}, **kw}


def combos(**alts):
    for v in itertools.product(*alts.values()):
        yield {k: x for k, x in zip(alts, v) if x is not None}


SMALL_SINK = {("flow_cap", "dem"): [4], ("flow_in", "dem"): [0, 0.5, 1, 2]}


def family(name):
    """Yields (label, system, domain overrides)."""
    if name == "supply":
        for p in combos(flow_out_eff=(None, 0.5), flow_out_parasitic_eff=(None, 0.5), source_eff=(None, 0.5, 2.0), source_use_max=(None, 2, T([2, 0, 2]), INF), flow_cap_max=(None, 1), flow_out_min_relative=(None, 0.5)):
            yield p, sys_({"s": {"base_tech": "supply", "carrier_out": "e", **p}}), SMALL_SINK
    if name == "supply_units":
        for p in combos(source_unit=(None, "absolute", "per_area", "per_cap"), source_use_equals=(None, 1, T([1, 2, 1])), source_use_max=(None, 2), source_use_min=(None, 1, T([0, 2, 0])), source_cap_equals_flow_cap=(None, True, False),
                        area_use_max=(None, 2)):
            if len(p) > 1:
                yield p, sys_({"s": {"base_tech": "supply", "carrier_out": "e", **p}}, "m2" if "area_use_max" in p else "2"), SMALL_SINK | {("area_use", "s"): [0, 1, 2], ("source_use", "s"): [0, 1, 2, 4]}
    if name == "area":
        for p in combos(area_use_min=(None, 1), area_use_max=(None, 2), area_use_per_flow_cap=(None, 0.5, 2), flow_cap_max=(None, 0, 2)):
            for avail in (None, 2):
                techs = {"s": {"base_tech": "supply", "carrier_out": "e", **p}, "r": {"base_tech": "supply", "carrier_out": "e", "area_use_max": 2, "flow_cap_max": 1}}
                yield {**p, "available": avail}, sys_(techs, "1", node_params={"a": {"available_area": avail}} if avail else {}), SMALL_SINK | {"area_use": [0, 1, 2, 4], ("source_cap", "r"): [0, 1]}
    if name == "caps":
        for p in combos(flow_cap_min=(None, 1), flow_cap_max=(None, 1, 2), flow_cap_max_systemwide=(None, 2, INF), flow_cap_min_systemwide=(None, 2), source_cap_max=(None, 1), source_cap_min=(None, 1)):
            techs = {"s": {"base_tech": "supply", "carrier_out": "e", **p}, "dem": {"base_tech": "demand", "carrier_in": "e"}}
            nodes = {"a": {"s": None, "dem": None}, "b": {"s": {"flow_cap_max": 1} if p.get("flow_cap_max") == 2 else None, "dem": None}}
            yield p, sys_(techs, "1", nodes), SMALL_SINK
    if name == "storage":
        for p in combos(flow_in_eff=(None, 0.5), flow_out_eff=(None, 0.5), storage_loss=(None, 0.5), storage_initial=(None, 0, 0.5), cyclic_storage=(None, True, False), storage_discharge_depth=(None, 0.5)):
            for h in ("2", "m"):
                techs = {"st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", **p}, "s": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 1, "source_cap_max": 1}}
                dom = SMALL_SINK | {("flow_cap", "st"): [1, 2], ("storage_cap", "st"): [2, 4], ("source_cap", "s"): [1], ("source_use", "s"): [0, 1], ("flow_cap", "s"): [1], ("flow_out", "s"): [0, 1],
                                    ("flow_out", "st"): [0, 0.5, 1], ("flow_in", "st"): [0, 1, 2], ("storage", "st"): [0, 0.25, 0.5, 1, 1.5, 2, 2.5, 3, 4], ("flow_in", "dem"): [0, 0.5, 1]}
                yield {**p, "hours": h}, sys_(techs, h), dom
    if name == "storage_ratio":
        for p in combos(flow_cap_per_storage_cap_min=(None, 0.5), flow_cap_per_storage_cap_max=(None, 0.5, 1), storage_cap_min=(None, 2), storage_cap_max=(None, 2), flow_cap_max=(None, 1)):
            techs = {"st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "cyclic_storage": False, "storage_initial": 1, **p}}
            yield p, sys_(techs, "1"), SMALL_SINK | {("flow_cap", "st"): [0, 0.5, 1, 2, 4]}
    if name == "supply_storage":
        for p in combos(flow_out_eff=(None, 0.5), source_eff=(None, 0.5), storage_loss=(None, 0.5), storage_initial=(None, 0.5), cyclic_storage=(None, False), storage_discharge_depth=(None, 0.5), source_use_max=(T([2, 0, 2]), None)):
            for h in ("2", "m2"):
                q = dict(p)
                if h == "m2" and "source_use_max" in q:
                    q["source_use_max"] = T([2, 0, 2])
                dom = SMALL_SINK | {("flow_cap", "s"): [1, 2], ("storage_cap", "s"): [2, 4], ("source_cap", "s"): [2], ("source_use", "s"): [0, 1, 2], ("flow_out", "s"): [0, 0.5, 1],
                                    ("storage", "s"): [0, 0.25, 0.5, 1, 1.5, 2, 2.5, 3, 4], ("flow_in", "dem"): [0, 0.5, 1]}
                yield {**p, "hours": h}, sys_({"s": {"base_tech": "supply", "carrier_out": "e", "include_storage": True, **q}}, h), dom
    if name == "conversion":
        for p in combos(flow_out_eff=(None, 0.5, C(e=0.5, h=1), C(h=0.5)), flow_in_eff=(None, 0.5, C(g=2)), flow_cap_max=(None, 2, C(g=2, e=1)), flow_out_min_relative=(None, 0.5)):
            for out in ("e", ["e", "h"]):
                if out == "e" and ("h" in str(p.get("flow_out_eff")) and isinstance(p["flow_out_eff"], C)):
                    continue
                techs = {"cv": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": out, **p}, "gas": {"base_tech": "supply", "carrier_out": "g", "source_cap_max": 4}, "dem": {"base_tech": "demand", "carrier_in": "e"}}
                if out != "e":
                    techs["demh"] = {"base_tech": "demand", "carrier_in": "h", "flow_cap_max": 2}
                yield {**p, "out": out}, sys_(techs, "1"), SMALL_SINK | {("flow_cap", "gas"): [4], ("source_cap", "gas"): [4], ("flow_cap", "demh"): [2], ("flow_out", "gas"): [0, 1, 2, 4]}
    if name == "conversion_more":
        for p in combos(flow_out_eff=(None, C(e=0.5)), flow_in_eff=(None, C(g=0.5, q=1)), include_storage=(None, True), flow_cap_max=(None, 2)):
            if p.get("include_storage"):
                for cyc, ini in ((False, 0.5), (False, None), (True, None), (True, 0.5)):
                    q = {**p, "cyclic_storage": cyc} | ({"storage_initial": ini} if ini is not None else {})
                    techs = {"cv": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": "e", **q}, "gas": {"base_tech": "supply", "carrier_out": "g"}, "dem": {"base_tech": "demand", "carrier_in": "e"}}
                    yield q, sys_(techs, "2"), SMALL_SINK | {("flow_cap", "gas"): [2], ("source_cap", "gas"): [2], ("flow_cap", "cv"): [1, 2], ("storage_cap", "cv"): [2], ("source_use", "gas"): [0, 1, 2], ("flow_out", "gas"): [0, 1, 2],
                                                             ("flow_in", "cv"): [0, 1, 2], ("flow_out", "cv"): [0, 0.5, 1], ("storage", "cv"): [0, 0.5, 1, 1.5, 2], ("flow_in", "dem"): [0, 0.5, 1]}
            else:
                techs = {"cv": {"base_tech": "conversion", "carrier_in": ["g", "q"], "carrier_out": "e", **p}, "gas": {"base_tech": "supply", "carrier_out": "g"}, "oil": {"base_tech": "supply", "carrier_out": "q"},
                         "dem": {"base_tech": "demand", "carrier_in": "e"}}
                few = {(v, t): x for t in ("gas", "oil") for v, x in (("flow_cap", [2]), ("source_cap", [2]), ("source_use", [0, 1, 2]), ("flow_out", [0, 1, 2]))}
                yield p, sys_(techs, "1"), SMALL_SINK | few
    if name == "link":
        for p in combos(one_way=(None, True), flow_out_eff=(None, 0.5), flow_in_eff=(None, 0.5), distance=(None, 2), flow_out_eff_per_distance=(None, 0.5), flow_in_eff_per_distance=(None, 2.0), flow_cap_max=(None, 2), flow_cap_min=(None, 1)):
            if p.get("distance") is None and ("flow_out_eff_per_distance" in p) != ("flow_in_eff_per_distance" in p):
                continue
            yield p, sys_({"li": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", **p}, "s": {"base_tech": "supply", "carrier_out": "e"}, "dem": {"base_tech": "demand", "carrier_in": "e"},
                           "back": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 1}}, "1",
                          {"a": {"s": None, "dem": None}, "b": {"dem": None, "back": None}}), SMALL_SINK | {("flow_cap", "s"): [4], ("source_cap", "s"): [4], ("flow_cap", "back"): [1], ("source_cap", "back"): [1],
                                                                                                          ("flow_in", "li"): [0, 0.5, 1, 2], ("flow_out", "li"): [0, 0.25, 0.5, 1, 2], ("source_use", "s"): [0, 0.5, 1, 2], ("source_use", "back"): [0, 1], ("flow_out", "back"): [0, 1]}
    if name == "demand":
        for p in combos(sink_unit=(None, "per_area", "per_cap"), sink_use_equals=(None, 1, T([2, 0, 2])), sink_use_max=(None, 2), sink_use_min=(None, 1), flow_in_eff=(None, 0.5), flow_cap_max=(None, 2)):
            techs = {"dem": {"base_tech": "demand", "carrier_in": "e", **p}, "s": {"base_tech": "supply", "carrier_out": "e"}}
            yield p, sys_(techs, "2"), {("flow_cap", "s"): [4], ("source_cap", "s"): [4], ("flow_out", "s"): [0, 1, 2, 4], ("flow_in", "dem"): [0, 1, 2, 4], ("flow_cap", "dem"): [0, 1, 2, 4], "area_use": [0, 1, 2]}
    if name == "ramp":
        for tech in ("supply", "storage", "conversion", "demand", "transmission"):
            for r in (0.5, 1, 0):
                for h in ("3", "m"):
                    techs = {"dem": {"base_tech": "demand", "carrier_in": "e"}, "s": {"base_tech": "supply", "carrier_out": "e"}}
                    nodes = None
                    dom = {"flow_cap": [4], "source_cap": [4], "flow_out": [0, 1, 2], "flow_in": [0, 1, 2], "source_use": [0, 1, 2]}
                    if tech == "supply":
                        techs["s"]["flow_ramping"] = r
                        dom[("flow_cap", "s")] = [1, 2]
                    elif tech == "demand":
                        techs["dem"]["flow_ramping"] = r
                        dom[("flow_cap", "dem")] = [1, 2]
                    elif tech == "conversion":
                        techs["s"]["carrier_out"] = "g"
                        techs["cv"] = {"base_tech": "conversion", "carrier_in": "g", "carrier_out": "e", "flow_ramping": r}
                        dom[("flow_cap", "cv")] = [1, 2]
                    elif tech == "storage":
                        techs["st"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "flow_ramping": r, "storage_initial": 0.5, "cyclic_storage": False}
                        dom |= {("flow_cap", "st"): [1, 2], "storage_cap": [4], "storage": [0, 1, 2, 3, 4], ("flow_out", "s"): [0, 1], ("source_use", "s"): [0, 1], ("flow_in", "dem"): [0, 1], ("flow_out", "st"): [0, 1], ("flow_in", "st"): [0, 1]}
                    else:
                        techs["li"] = {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", "flow_ramping": r}
                        nodes = {"a": {"s": None}, "b": {"dem": None}}
                        dom |= {("flow_cap", "li"): [1, 2], "link_flow_cap": [1, 2], ("flow_out", "li"): [0, 1], ("flow_in", "li"): [0, 1]}
                    yield {"tech": tech, "ramp": r, "hours": h}, sys_(techs, h, nodes), dom
    if name == "export":
        for p in combos(export_max=(None, 1, T([0, 2, 0])), export_min=(None, 0.5), flow_cap_max=(None, 1), cost_export=(None, K(m=-3), K(m=2))):
            for out in ("e", ["e", "h"]):
                techs = {"s": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": out, "carrier_export": "e", **p}, "gas": {"base_tech": "supply", "carrier_out": "g"}, "dem": {"base_tech": "demand", "carrier_in": "e", "flow_cap_max": 2}}
                if out != "e":
                    techs["demh"] = {"base_tech": "demand", "carrier_in": "h", "flow_cap_max": 1}
                yield {**p, "out": out}, sys_(techs, "2" if out == "e" else "1", **({} if out == "e" else {})) if not (out != "e" and isinstance(p.get("export_max"), T)) else sys_(techs, "2"), \
                    SMALL_SINK | {("flow_cap", "gas"): [2], ("source_cap", "gas"): [2], "flow_out": [0, 1, 2], "flow_in": [0, 1, 2], ("flow_in", "dem"): [0, 0.5, 1], "flow_export": [0, 0.5, 1, 2], "source_use": [0, 1, 2], ("flow_cap", "demh"): [1],
                                  ("flow_in", "demh"): [0, 1]} | ({("flow_cap", "s"): [2]} if out != "e" else {})
    if name == "unmet":
        for p in combos(flow_cap_max=(0, 1), sink_use_equals=(1, T([2, 0, 2]))):
            for big in (None, 1000):
                techs = {"dem": {"base_tech": "demand", "carrier_in": "e", "sink_use_equals": p["sink_use_equals"]}, "s": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": p["flow_cap_max"], "cost_flow_out": K(m=1)}}
                for must in (None, 1):
                    if must:
                        techs["s"] = {**techs["s"], "source_use_equals": 1, "source_unit": "per_cap"}
                    for safe in (True, False):
                        yield {**p, "bigM": big, "must": must, "safe": safe}, sys_(techs, "2", build={"ensure_feasibility": safe}, params={"bigM": big} if big else {}), {("flow_cap", "dem"): [2]}
    if name == "costs":
        invest = dict(cost_flow_cap=K(m=100), cost_source_cap=K(m=30), cost_area_use=K(m=7), cost_storage_cap=K(m=11))
        for p in combos(cost_depreciation_rate=(None, K(m=0.2), K(m=0)), cost_interest_rate=(None, K(m=0.1), K(m=0)), lifetime=(10, None), cost_om_annual=(None, K(m=5)), cost_om_annual_investment_fraction=(None, K(m=0.02)), what=("s", "st", "li")):
            p = dict(p)
            what = p.pop("what")
            techs = {"s": {"base_tech": "supply", "carrier_out": "e"}, "st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "cyclic_storage": False}, "dem": {"base_tech": "demand", "carrier_in": "e"},
                     "li": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", "distance": 3}}
            kinds = {"s": ("cost_flow_cap", "cost_source_cap", "cost_area_use"), "st": ("cost_flow_cap", "cost_storage_cap"), "li": ("cost_flow_cap",)}[what]
            techs[what] |= {k: invest[k] for k in kinds} | p
            if what == "s":
                techs["s"]["area_use_per_flow_cap"] = 1
            if what == "li":
                techs["li"]["cost_flow_cap_per_distance"] = K(m=9)
            dom = {"flow_cap": [0, 1], "source_cap": [0, 1], "storage_cap": [0, 2], "storage": [0, 1], "area_use": [0, 1], "flow_out": [0, 1], "flow_in": [0, 1], "source_use": [0, 1], "link_flow_cap": [0, 1], ("flow_cap", "dem"): [1]}
            yield {**p, "what": what}, sys_(techs, "1", {"a": {"s": None, "st": None}, "b": {"dem": None}}), dom
    if name == "opcosts":
        for p in combos(cost_flow_out=(None, K(m=2, q=3), C(e=0)), cost_flow_in=(None, K(m=5)), cost_source_use=(None, K(m=1, q=-1)), weights=(None, K(m=1, q=0.5), K(m=2, q=0))):
            for h in ("2", "m"):
                p2 = dict(p)
                w = p2.pop("weights", None)
                if isinstance(p2.get("cost_flow_out"), C):
                    continue
                sup = {k: v for k, v in p2.items() if k != "cost_flow_in"}
                cv = {k: v for k, v in p2.items() if k != "cost_source_use"}
                techs = {"s": {"base_tech": "supply", "carrier_out": "g", **sup}, "cv": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": ["e", "h"], **cv}, "dem": {"base_tech": "demand", "carrier_in": "e", **{k: v for k, v in p2.items() if k == "cost_flow_in"}},
                         "demh": {"base_tech": "demand", "carrier_in": "h"}}
                yield {**p, "hours": h}, sys_(techs, h, params={"objective_cost_weights": w} if w else {}), {"flow_cap": [1], "source_cap": [1], "flow_out": [0, 1], "flow_in": [0, 1], "source_use": [0, 1]}
    if name == "two":
        # several technologies, each with its own values of the same parameters, and values of their own at nodes
        bools = [{"cyclic_storage": a, "storage_initial": i} for a in (True, False) for i in (0.5, None)]
        for a, b in itertools.product(bools, repeat=2):
            techs = {"x": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", **{k: v for k, v in a.items() if v is not None}}, "y": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", **{k: v for k, v in b.items() if v is not None}}}
            techs["x"]["storage_loss"] = 0.5
            techs["y"]["flow_out_eff"] = 0.5
            dom = {"flow_cap": [1], "storage_cap": [2], "storage": [0, 0.5, 1, 1.5, 2], "flow_out": [0, 0.5, 1], "flow_in": [0, 0.5, 1], ("flow_in", "dem"): [0, 0.5, 1]}
            yield {"x": a, "y": b}, sys_(techs, "2"), dom
        for a in (True, False):  # a value for one technology says nothing about the others
            techs = {"x": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "cyclic_storage": a}, "y": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e"}}
            yield {"x": a, "y": "default"}, sys_(techs, "2"), {"flow_cap": [1], "storage_cap": [2], "storage": [0, 0.5, 1, 1.5, 2], "flow_out": [0, 0.5, 1], "flow_in": [0, 0.5, 1], ("flow_in", "dem"): [0, 0.5, 1]}
        for a, b, c in itertools.product((None, 0.5), (None, 1), (None, 2)):
            techs = {"s": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 2, **({"flow_out_eff": a} if a else {})}, "r": {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_cap", "source_use_max": T([1, 2, 1])}}
            nodes = {"a": {"s": {"flow_cap_max": b} if b else None, "r": {"source_use_max": T([2, 1, 2])}, "dem": None}, "b": {"s": {"flow_out_eff": c} if c else None, "r": None, "dem": None}}
            techs["dem"] = {"base_tech": "demand", "carrier_in": "e"}
            yield {"eff": a, "a": b, "b": c}, sys_(techs, "1" if False else "2", nodes), {("flow_cap", "s"): [1, 2], ("flow_cap", "r"): [1], ("flow_cap", "dem"): [4], "source_cap": [2], "source_use": [0, 1, 2], "flow_out": [0, 1, 2], "flow_in": [0, 1, 2]}


FAMILIES = ["supply", "supply_units", "area", "caps", "storage", "storage_ratio", "supply_storage", "conversion", "conversion_more", "link", "demand", "ramp", "export", "unmet", "costs", "opcosts", "two"]
QUICK = {"supply": 7, "supply_units": 9, "area": 3, "caps": 7, "storage": 7, "storage_ratio": 3, "supply_storage": 7, "conversion": 3, "conversion_more": 2, "link": 8, "demand": 7, "ramp": 2, "export": 3, "unmet": 2, "costs": 5, "opcosts": 3, "two": 2}


def cases(tier):
    out = []
    for f in FAMILIES:
        out += [(f, i) for i, (label, _, _) in enumerate(family(f)) if tier != "quick" or i % QUICK[f] == 0 or label.get("y") == "default"]
    return out


_FAM = {}


def run_case(case, res):
    f, i = case
    if f not in _FAM:
        _FAM[f] = list(family(f))
    label, s, over = _FAM[f][i]
    run_system(f"{f}:{label}", s, domains(over), res)


def run_system(what, s, doms, res, rules=plans.base_rules, backend="pyomo"):
    try:
        m = systems.build(plans.load(s, backend))
    except Exception as e:  # noqa: BLE001
        return res.fail(f"build:{what}", f"{type(e).__name__}: {str(e)[:300]}")
    ex = problem.extract(m.backend)
    R = rules(s)
    got = plans.compare(s, ex, R, doms, res, what)
    if got is None:
        return
    order, table, dv, cost = got
    res.traces += 1
    if len(table) > 1:
        res.nontrivial += 1
    res.outcome((what, len(table)))
    res.counts["valid plans"] += len(table)
    systems.solve(m)
    cond = str(m.runtime.termination_condition)
    best = float(cost.min()) if len(cost) else None
    if cond != "optimal":
        if best is not None and cond == "infeasible":
            res.fail(f"solve:{what}", f"{len(table)} valid plans exist, the solver says {cond}")
        return
    vals = {}
    for name in {k[0] for k in R.vars}:
        da = m.results[name] if name in m.results else None
        if da is None:
            continue
        for idx, v in problem.elements(da).items():
            vals[(name, idx)] = float(v)
    used = {k for _, form, _ in ex["constraints"].values() for term, _ in form for k in term} | {k for term, _ in ex["objective"][2] for k in term}
    missing = [k for k in R.vars if k not in vals and k in used]
    for k in R.vars:
        if k not in used and k not in vals:  # in no row: any value within its bounds will do
            vals[k] = R.vars[k][0] if R.vars[k][0] > -INF else 0.0
    if missing:
        return res.fail(f"results:{what}", f"no result value for {missing[:3]}")
    dvs = {k: np.array([vals[k]]) for k in order}
    row = np.zeros(len(order), dtype=np.uint8)
    plans_tol, plans.TOL = plans.TOL, 1e-5
    try:
        bad = plans.violated(order, row, [dvs[k] for k in order], R.rules)
    finally:
        plans.TOL = plans_tol
    if bad:
        return res.fail(f"optimum:{what}", f"the solver's plan {plans.show(order, row, [dvs[k] for k in order])} breaks {sorted(set(bad))[:4]}")
    c = float(plans.objective(order, row[None, :], [dvs[k] for k in order], R.cost)[0])
    if best is not None and c > best + 1e-5 * max(1, abs(best)):
        res.fail(f"optimum:{what}", f"the solver's plan costs {c:.8g}, a valid plan costs {best:.8g}")
    if res.sample is None:
        res.sample = {"system": what, "variables": len(order), "rules": len(R.rules), "rows": len(ex["constraints"]), "valid plans on the grid": len(table)}
