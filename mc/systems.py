"""Small energy systems made of a base system plus independent features.

base(): a generator `gen` at node a, a demand `dem` and a back-up `loc` at node b, a link `line`, carrier e,
3 hourly steps.  FEATURES: name -> function changing that definition; each is meaningful on its own and
combines with the others.  MATHS: which optional math a feature needs.
"""
from __future__ import annotations

import copy

TS = ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-01 02:00"]
M = {"index": "monetary", "dims": "costs"}


def cost(v, cls="monetary"):
    return {"data": v, "index": cls, "dims": "costs"}


def series(d, par, tech, vals, node=None):
    """A time series for a technology (at a node) through data_definitions."""
    ent = d["data_definitions"].setdefault(par, {"data": [], "index": [], "dims": ["techs", "nodes", "timesteps"]})
    for t, v in zip(d["_ts"], vals):
        ent["data"].append(v)
        ent["index"].append([tech, node, t])


def base(ts=TS, backend="pyomo"):
    d = {
        "_ts": list(ts),
        "config": {
            "init": {"name": "sys", "extra_math": []},
            "build": {"backend": backend},
            "solve": {"solver": "cbc" if backend == "pyomo" else "gurobi"},
        },
        "techs": {
            "gen": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 9, "cost_flow_out": cost(1), "cost_flow_cap": cost(3), "lifetime": 10},
            "dem": {"base_tech": "demand", "carrier_in": "e"},
            "loc": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 5, "cost_flow_out": cost(4)},
            "line": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", "flow_cap_max": 8},
        },
        "nodes": {"a": {"techs": {"gen": None}}, "b": {"techs": {"dem": None, "loc": None}}},
        "data_definitions": {"bigM": 1000, "objective_cost_weights": {"data": 1, "index": "monetary", "dims": "costs"}},
    }
    series(d, "sink_use_equals", "dem", [2, 4, 3], "b")
    return d


F = {}
MATHS = {}


def feature(f=None, math=None):
    def reg(g):
        F[g.__name__] = g
        if math:
            MATHS[g.__name__] = math
        return g
    return reg(f) if f else reg


@feature
def bat(d):
    d["techs"]["bat"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "flow_cap_max": 4, "storage_cap_max": 6, "flow_in_eff": 0.5, "flow_out_eff": 0.8,
                         "storage_loss": 0.25, "storage_initial": 0.5, "cyclic_storage": False, "cost_storage_cap": cost(2), "lifetime": 10}
    d["nodes"]["b"]["techs"]["bat"] = None


@feature
def bat_cyclic(d):
    d["techs"]["batc"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "flow_cap_max": 4, "storage_cap_max": 6, "storage_cap_min": 1,
                          "storage_discharge_depth": 0.25, "flow_cap_per_storage_cap_min": 0.1, "flow_cap_per_storage_cap_max": 0.75}
    d["nodes"]["a"]["techs"]["batc"] = None


@feature
def bat_cyclic_initial(d):
    d["techs"]["bati"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "flow_cap_max": 4, "storage_cap_max": 8, "storage_initial": 0.5, "storage_loss": 0.1, "cyclic_storage": True}
    d["nodes"]["a"]["techs"]["bati"] = {"storage_cap_max": 4}


@feature
def conv(d):
    d["techs"]["boil"] = {"base_tech": "conversion", "carrier_in": "e", "carrier_out": "h", "flow_cap_max": 7, "flow_out_eff": 0.5, "flow_in_eff": 0.8, "cost_flow_in": cost(1)}
    d["techs"]["demh"] = {"base_tech": "demand", "carrier_in": "h"}
    d["nodes"]["b"]["techs"].update(boil=None, demh=None)
    series(d, "sink_use_equals", "demh", [1, 0, 2], "b")


@feature
def chp(d):
    d["techs"]["chp"] = {"base_tech": "conversion", "carrier_in": "g", "carrier_out": ["e", "h"], "flow_cap_max": {"data": [3, 4, 6], "index": ["e", "h", "g"], "dims": "carriers"},
                         "flow_out_eff": {"data": [0.5, 0.25], "index": ["e", "h"], "dims": "carriers"}}
    d["techs"]["gas"] = {"base_tech": "supply", "carrier_out": "g", "source_use_max": 20, "cost_source_use": cost(0.5)}
    d["techs"]["dumph"] = {"base_tech": "demand", "carrier_in": "h", "sink_use_max": 5}
    d["nodes"]["b"]["techs"].update(chp=None, gas=None, dumph=None)


@feature
def dam(d):
    d["techs"]["dam"] = {"base_tech": "supply", "carrier_out": "e", "include_storage": True, "storage_cap_max": 10, "storage_initial": 0.2, "cyclic_storage": False, "flow_cap_max": 6,
                         "source_eff": 0.5, "flow_out_parasitic_eff": 0.9, "source_cap_max": 4, "cost_source_cap": cost(0.5), "cost_depreciation_rate": cost(0.2)}
    d["nodes"]["a"]["techs"]["dam"] = None
    series(d, "source_use_max", "dam", [3, 0, 2], "a")


@feature
def pv(d):
    d["techs"]["pv"] = {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_area", "area_use_max": 10, "area_use_min": 1, "area_use_per_flow_cap": 0.5, "source_eff": 0.8,
                        "cost_area_use": cost(1), "cost_interest_rate": cost(0.1), "lifetime": 20, "cost_om_annual": cost(3)}
    d["nodes"]["a"]["techs"]["pv"] = None
    d["nodes"]["b"]["techs"]["pv"] = None
    d["nodes"]["b"]["available_area"] = 7
    series(d, "source_use_equals", "pv", [0, 0.5, 1], "a")
    series(d, "source_use_max", "pv", [0, 1, 0.5], "b")


@feature
def wind(d):
    d["techs"]["wind"] = {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_cap", "flow_cap_max_systemwide": 6, "flow_cap_min_systemwide": 1,
                          "source_use_min": 0.1, "source_use_max": 0.9, "source_cap_equals_flow_cap": True, "cost_om_annual_investment_fraction": cost(0.05), "cost_flow_cap": cost(10), "lifetime": 25}
    d["nodes"]["a"]["techs"]["wind"] = None
    d["nodes"]["b"]["techs"]["wind"] = {"flow_cap_max": 2}


@feature
def ramp(d):
    d["techs"]["gen"]["flow_ramping"] = 0.4
    d["techs"]["line"]["flow_ramping"] = 0.5


@feature
def minrel(d):
    d["techs"]["loc"]["flow_out_min_relative"] = 0.25
    d["techs"]["loc"]["flow_cap_min"] = 1


@feature
def export(d):
    d["techs"]["loc"]["carrier_export"] = "e"
    d["techs"]["loc"]["export_max"] = 2
    d["techs"]["loc"]["export_min"] = 0.5
    d["techs"]["loc"]["cost_export"] = cost(-0.5)


@feature
def oneway(d):
    d["techs"]["line"].update(one_way=True, distance=3, flow_out_eff_per_distance=0.9, flow_in_eff=0.95, cost_flow_cap_per_distance=cost(0.2), cost_flow_cap=cost(1), lifetime=40)


@feature
def link2(d):
    """A second link, between different carriers' node set, losses on both sides."""
    d["nodes"]["c"] = {"techs": {"demc": None}}
    d["techs"]["demc"] = {"base_tech": "demand", "carrier_in": "e", "sink_use_min": 0.5, "sink_use_max": 2, "cost_flow_in": cost(-2)}
    d["techs"]["line2"] = {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "c", "link_to": "b", "flow_out_eff": 0.9, "flow_in_eff": 0.8, "flow_cap_min": 1, "flow_cap_max": 6}


@feature
def two_costs(d):
    d["data_definitions"]["objective_cost_weights"] = {"data": [1, 2.5], "index": [["monetary"], ["co2"]], "dims": ["costs"]}
    d["techs"]["gen"]["cost_flow_out"] = {"data": [1, 0.3], "index": [["monetary"], ["co2"]], "dims": ["costs"]}
    d["data_definitions"]["cost_interest_rate"] = cost(0.05)


@feature
def unmet(d):
    d["config"]["build"]["ensure_feasibility"] = True
    d["techs"]["loc"]["flow_cap_max"] = 1


@feature
def sinks(d):
    d["techs"]["ev"] = {"base_tech": "demand", "carrier_in": "e", "sink_unit": "per_cap", "sink_use_min": 0.1, "sink_use_max": 0.5, "flow_cap_max": 4, "flow_in_eff": 0.9, "cost_flow_in": cost(-3)}
    d["techs"]["farm"] = {"base_tech": "demand", "carrier_in": "e", "sink_unit": "per_area", "sink_use_equals": 0.2, "area_use_max": 5, "area_use_min": 1}
    d["nodes"]["b"]["techs"]["ev"] = None
    d["nodes"]["a"]["techs"]["farm"] = None


@feature
def zerocap(d):
    d["techs"]["roof"] = {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 0, "area_use_max": 3}
    d["nodes"]["b"]["techs"]["roof"] = None


@feature
def convstore(d):
    """A conversion technology with an internal store."""
    d["techs"]["tank"] = {"base_tech": "conversion", "carrier_in": "e", "carrier_out": "q", "include_storage": True, "storage_cap_max": 5, "storage_initial": 0, "cyclic_storage": True, "flow_cap_max": 4, "flow_out_eff": 0.5}
    d["techs"]["demq"] = {"base_tech": "demand", "carrier_in": "q", "sink_use_equals": 0.5}
    d["nodes"]["a"]["techs"].update(tank=None, demq=None)


@feature
def nodecost(d):
    """Values set at a node replace those of the technology."""
    d["nodes"]["b"]["techs"]["loc"] = {"cost_flow_out": cost(2), "flow_out_eff": 0.5, "flow_cap_max": 6}


@feature
def res2h(d):
    d["config"]["init"]["resample"] = {"timesteps": "2h"}


@feature(math=["milp"])
def milp_units(d):
    d["techs"]["unit"] = {"base_tech": "supply", "carrier_out": "e", "cap_method": "integer", "integer_dispatch": True, "flow_cap_per_unit": 2, "purchased_units_max": 3, "flow_out_min_relative": 0.5,
                          "cost_purchase": cost(1), "lifetime": 10, "purchased_units_max_systemwide": 4, "purchased_units_min_systemwide": 1}
    d["nodes"]["a"]["techs"]["unit"] = None
    d["nodes"]["b"]["techs"]["unit"] = None


@feature(math=["milp"])
def milp_purchase(d):
    d["techs"]["plant"] = {"base_tech": "supply", "carrier_out": "e", "cap_method": "integer", "purchased_units_max": 1, "flow_cap_max": 4, "flow_cap_min": 2, "cost_purchase": cost(5), "lifetime": 10,
                           "flow_cap_min_systemwide": 1}
    d["techs"]["line"].update(cap_method="integer", purchased_units_max=1, cost_purchase=cost(2), cost_purchase_per_distance=cost(0.5), distance=4, lifetime=30)
    d["nodes"]["b"]["techs"]["plant"] = None


@feature(math=["milp"])
def milp_avail(d):
    d["techs"]["flex"] = {"base_tech": "supply", "carrier_out": "e", "cap_method": "integer", "integer_dispatch": True, "purchased_units_max": 1, "flow_cap_max": 4, "flow_out_min_relative": 0.5, "cost_flow_out": cost(0.2)}
    d["nodes"]["b"]["techs"]["flex"] = None


@feature(math=["milp"])
def milp_async(d):
    d["techs"]["phs"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "force_async_flow": True, "flow_cap_max": 3, "storage_cap_max": 5, "cyclic_storage": False, "flow_out_eff": 0.5,
                         "cap_method": "integer", "purchased_units_max": 1}
    d["techs"]["phu"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "cap_method": "integer", "storage_cap_per_unit": 4, "flow_cap_per_unit": 2, "purchased_units_max": 2, "integer_dispatch": True}
    d["nodes"]["b"]["techs"].update(phs=None, phu=None)


@feature(math=["milp"])
def milp_min(d):
    """Lower bounds of every kind, which the optional math treats in constraints of their own."""
    d["techs"]["lows"] = {"base_tech": "supply", "carrier_out": "e", "flow_cap_min": 1, "flow_cap_max": 3, "source_cap_min": 1, "area_use_min": 2, "storage_cap_min": 1, "include_storage": True, "cyclic_storage": False}
    d["nodes"]["a"]["techs"]["lows"] = None


def definition(features, ts=TS, backend="pyomo", extra=()):
    d = base(ts, backend)
    maths = []
    for f in features:
        F[f](d)
        for m in MATHS.get(f, ()):
            if m not in maths:
                maths.append(m)
    d["config"]["init"]["extra_math"] = maths + [m for m in extra if m not in maths]
    d = copy.deepcopy(d)
    d.pop("_ts")
    # a data_definitions array given for (tech, node, step) entries only; fill nothing else
    return d


def load(features, ts=TS, backend="pyomo", extra=(), change=None, **kw):
    import warnings

    import calliope

    d = definition(features, ts, backend, extra)
    if change:
        change(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(d, **kw)


def build(m, **kw):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.build(**kw)
    return m


def solve(m, **kw):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.solve(**kw)
    return m
