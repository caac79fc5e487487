"""Energy systems as plain data, the rules of physically valid plans, and exhaustive enumeration of plans on a grid.

System: {"ts": [...], "nodes": {node: {tech: {param: value}}}, "techs": {tech: {param: value}}, "params": {...}, "build": {...}, "node_params": {node: {...}}}
with values: plain, C({carrier: v}), K({cost class: v}), T([...]) (one value per step).

rules(system) -> Rules: variables (keys as in mc.problem), rules (scope, predicate on columns), objective (function of columns).
enumerate_plans(order, domains, rules) explores layer by layer the tree of partial plans and returns all complete valid ones.
"""
from __future__ import annotations

import datetime as dt
import math
import warnings

import numpy as np

from mc import problem

TOL = 1e-7
INF = math.inf


class C(dict):
    pass


class K(dict):
    pass


class T(list):
    pass


class D(dict):
    """Values by days of the clustering."""


def key(name, **idx):
    return (name, tuple(sorted((k, v) for k, v in idx.items())))


def stamps(hours, start="2005-01-01"):
    t0 = dt.datetime.fromisoformat(start)
    return [(t0 + dt.timedelta(hours=h)).isoformat() for h in hours]


def carriers(v):
    return [] if v is None else [v] if isinstance(v, str) else list(v)


# --- system -> definition -------------------------------------------------------------------------

def definition(s, backend="pyomo"):
    d = {
        "config": {"init": {"name": "plans", "extra_math": list(s.get("math", [])), **s.get("init", {})}, "build": {"backend": backend, **s.get("build", {})}, "solve": {"solver": "cbc"}},
        "techs": {}, "nodes": {}, "data_definitions": {},
    }
    dd = d["data_definitions"]

    def put(where, name, v, tech, node=None):
        if isinstance(v, C):
            where[name] = {"data": list(v.values()), "index": [[c] for c in v], "dims": ["carriers"]}
        elif isinstance(v, K):
            where[name] = {"data": list(v.values()), "index": [[c] for c in v], "dims": ["costs"]}
        elif isinstance(v, T):
            raise ValueError("series")
        else:
            where[name] = v

    for tech, ps in s["techs"].items():
        d["techs"][tech] = {}
        for name, v in ps.items():
            if not isinstance(v, T):
                put(d["techs"][tech], name, v, tech)
    series = {}
    for node, ts in s["nodes"].items():
        d["nodes"][node] = {"techs": {}, **s.get("node_params", {}).get(node, {})}
        for tech, ps in ts.items():
            tgt = {}
            for name, v in (ps or {}).items():
                if not isinstance(v, T):
                    put(tgt, name, v, tech, node)
            d["nodes"][node]["techs"][tech] = tgt or None
    for tech, ps in s["techs"].items():
        for node in ends(s, tech):
            for name, v in {**ps, **((s["nodes"][node].get(tech) or {}))}.items():
                if isinstance(v, T):
                    series.setdefault(name, []).extend((x, [tech, node, t]) for x, t in zip(v, s["ts"]) if x is not None)
    for name, rows in series.items():
        dd[name] = {"data": [x for x, _ in rows], "index": [i for _, i in rows], "dims": ["techs", "nodes", "timesteps"]}
    if not any(True for _ in series):
        dd["anchor_series"] = {"data": [0] * len(s["ts"]), "index": [[t] for t in s["ts"]], "dims": ["timesteps"]}
    for name, v in s.get("params", {}).items():
        put(dd, name, v, None)
    for name, rows in s.get("tables", {}).items():
        dd[name] = rows
    return d


def ends(s, tech):
    p = s["techs"][tech]
    if p["base_tech"] == "transmission":
        return [p["link_from"], p["link_to"]]
    return [n for n in s["nodes"] if tech in s["nodes"][n]]


def load(s, backend="pyomo", **kw):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(definition(s, backend), **kw)


# --- rules ----------------------------------------------------------------------------------------

class Rules:
    def __init__(self):
        self.vars = {}  # key -> (lb, ub, integer)
        self.rules = []  # (name, scope, predicate)
        self.cost = []  # (coefficient, key) of the objective

    def var(self, name, lb=0.0, ub=INF, integer=False, **idx):
        k = key(name, **idx)
        self.vars[k] = (lb, ub, integer)
        return k

    def need(self, name, scope, pred):
        self.rules.append((name, tuple(scope), pred))

    def lin(self, name, terms, op, rhs=0.0):
        """Sum of coefficient * variable compared with a number."""
        terms = [(c, k) for c, k in terms]
        coef = np.array([c for c, _ in terms], dtype=float)
        scope = [k for _, k in terms]

        def pred(*cols):
            x = 0.0
            for c, col in zip(coef, cols):
                x = x + c * col
            return np.abs(x - rhs) <= TOL if op == "==" else x <= rhs + TOL if op == "<=" else x >= rhs - TOL

        if scope:
            self.need(name, scope, pred)


class System:
    """Values of a system's parameters, as documented."""

    def __init__(self, s):
        self.s = s
        self.ts = [dt.datetime.fromisoformat(t).isoformat() for t in s["ts"]]
        times = [dt.datetime.fromisoformat(t) for t in s["ts"]]
        hours = [(b - a).total_seconds() / 3600 for a, b in zip(times, times[1:])]
        self.res = hours + hours[-1:] if hours else [1.0]
        self.weights = s.get("weights", [1.0] * len(self.ts))
        self.hours = sum(r * w for r, w in zip(self.res, self.weights))

    def get(self, node, tech, name, default=None, carrier=None, cost=None, t=None):
        ps = {**self.s["techs"][tech], **(self.s["nodes"].get(node, {}).get(tech) or {})}
        if name not in ps:
            if name in self.s.get("params", {}):
                v = self.s["params"][name]
            else:
                return default
        else:
            v = ps[name]
        if isinstance(v, T):
            v = v[t]
        elif isinstance(v, C):
            v = v.get(carrier)
        elif isinstance(v, K):
            v = v.get(cost)
        return default if v is None else v

    def given(self, node, tech, name, **kw):
        v = self.get(node, tech, name, None, **kw)
        return v is not None and not (isinstance(v, float) and math.isinf(v))

    def costs(self):
        out = set()
        for ps in [*self.s["techs"].values(), *(p or {} for n in self.s["nodes"].values() for p in n.values())]:
            for v in ps.values():
                if isinstance(v, K):
                    out |= set(v)
        return sorted(out)


def base_rules(s, defects=()):
    """The rules of the base formulation and of unit commitment, from their documentation.

    defects: names of recorded defects of the code that the rules reproduce.
    """
    S, R = System(s), Rules()
    milp = "milp" in s.get("math", ())
    big = s.get("params", {}).get("bigM", 1e6)
    units_of = {}  # tech -> [keys]
    ts = range(len(S.ts))
    techs = s["techs"]
    flow_at = {}  # (node, carrier, t) -> terms
    cap_of = {}  # (tech, carrier) -> [keys]
    area_at = {}

    for tech, p in techs.items():
        kind = p["base_tech"]
        for node in ends(s, tech):
            g = lambda name, default=None, **kw: S.get(node, tech, name, default, **kw)  # noqa: B023,E731
            given = lambda name, **kw: S.given(node, tech, name, **kw)  # noqa: B023,E731
            cin, cout = carriers(p.get("carrier_in")), carriers(p.get("carrier_out"))
            if kind == "transmission" and p.get("one_way"):
                cin, cout = (cin, []) if node == p["link_from"] else ([], cout)
            cs = sorted(set(cin) | set(cout))
            store = kind == "storage" or bool(g("include_storage", False))
            ix = dict(nodes=node, techs=tech)
            low = lambda name, **kw: 0 if milp else g(name, 0, **kw)  # noqa: B023,E731
            units = R.var("purchased_units", g("purchased_units_min", 0), g("purchased_units_max", INF), True, **ix) if milp and g("cap_method", "continuous") == "integer" else None
            if units:
                units_of.setdefault(tech, []).append(units)
            cap = {c: R.var("flow_cap", low("flow_cap_min", carrier=c), g("flow_cap_max", INF, carrier=c), carriers=c, **ix) for c in cs}
            for c in cs:
                cap_of.setdefault((tech, c), []).append(cap[c])
            fo = {(c, t): R.var("flow_out", carriers=c, timesteps=S.ts[t], **ix) for c in cout for t in ts}
            fi = {(c, t): R.var("flow_in", carriers=c, timesteps=S.ts[t], **ix) for c in cin for t in ts}
            export = set(carriers(g("carrier_export")))
            fx = {(c, t): R.var("flow_export", g("export_min", 0, t=t), g("export_max", INF, t=t), carriers=c, timesteps=S.ts[t], **ix) for c in cout if c in export for t in ts}
            su = {t: R.var("source_use", timesteps=S.ts[t], **ix) for t in ts} if kind == "supply" else {}
            sc = R.var("source_cap", low("source_cap_min"), g("source_cap_max", INF), **ix) if kind == "supply" else None
            area = None
            if any(given(x) for x in ("area_use_min", "area_use_max", "area_use_per_flow_cap")) or g("sink_unit") == "per_area" or g("source_unit") == "per_area":
                area = R.var("area_use", low("area_use_min"), g("area_use_max", INF), **ix)
                area_at.setdefault(node, []).append(area)
            stcap = R.var("storage_cap", low("storage_cap_min"), g("storage_cap_max", INF), **ix) if store else None
            st = {t: R.var("storage", timesteps=S.ts[t], **ix) for t in ts} if store else {}
            if kind == "transmission":
                link = R.var("link_flow_cap", techs=tech)
                R.lin("both ends of a link have its capacity", [(1, cap[c]) for c in cs] + [(-1, link)], "==")

            # capacities
            for c in cs:
                if store and given("flow_cap_per_storage_cap_min"):
                    R.lin("storage flow per capacity, min", [(1, cap[c]), (-g("flow_cap_per_storage_cap_min"), stcap)], ">=")
                if store and given("flow_cap_per_storage_cap_max"):
                    R.lin("storage flow per capacity, max", [(1, cap[c]), (-g("flow_cap_per_storage_cap_max"), stcap)], "<=")
                if sc and g("source_cap_equals_flow_cap", False):
                    R.lin("source capacity equals flow capacity", [(1, cap[c]), (-1, sc)], "==")
                if area and given("area_use_per_flow_cap"):
                    R.lin("area per flow capacity", [(1, area), (-g("area_use_per_flow_cap"), cap[c])], "==")
            if area and any(g("flow_cap_max", None, carrier=c) == 0 for c in cs):
                R.lin("no area without flow capacity", [(1, area)], "==")

            # flows
            eff_o, eff_i = {}, {}
            for c in cs:
                for t in ts:
                    o = g("flow_out_eff", 1, carrier=c, t=t) * g("flow_out_parasitic_eff", 1, carrier=c, t=t)
                    i = g("flow_in_eff", 1, carrier=c, t=t)
                    if kind == "transmission":
                        o *= g("flow_out_eff_per_distance", 1) ** g("distance", 1)
                        i *= g("flow_in_eff_per_distance", 1) ** g("distance", 1)
                    eff_o[c, t], eff_i[c, t] = o, i
            available = {}
            if milp:
                available = unit_rules(R, S, s, ts, node, tech, g, given, cs, units, cap, stcap, area, sc, fo, fi, big)
            loose = lambda c: "dispatch" in defects and units and g("integer_dispatch", False) and (c, 0) not in available  # noqa: B023,E731
            for (c, t), k in fo.items():
                if loose(c):
                    continue
                most, scale = available.get((c, t), (cap[c], 1))
                R.lin("outflow within capacity", [(1, k), (-S.res[t] * g("flow_out_parasitic_eff", 1, t=t) * scale, most)], "<=")
                if given("flow_out_min_relative", carrier=c, t=t):
                    R.lin("minimum outflow", [(1, k), (-S.res[t] * g("flow_out_min_relative", carrier=c, t=t) * scale, most)], ">=")
            for (c, t), k in fi.items():
                if loose(c):
                    continue
                most, scale = available.get((c, t), (cap[c], 1))
                R.lin("inflow within capacity", [(1, k), (-S.res[t] * scale, most)], "<=")
            for (c, t), k in fx.items():
                R.lin("export is part of the outflow", [(1, k), (-1, fo[c, t])], "<=")
            for c in cs:
                for t in ts:
                    flow_at.setdefault((node, c, t), []).extend([(1, fo[c, t])] if (c, t) in fo else [])
                    flow_at[node, c, t].extend([(-1, fi[c, t])] if (c, t) in fi else [])
                    flow_at[node, c, t].extend([(-1, fx[c, t])] if (c, t) in fx else [])
                    if given("flow_ramping") and t > 0:
                        net = lambda u, w: ([(w / S.res[u], fo[c, u])] if (c, u) in fo else []) + ([(-w / S.res[u], fi[c, u])] if (c, u) in fi else [])  # noqa: B023,E731
                        R.lin("ramping up", net(t, 1) + net(t - 1, -1) + [(-g("flow_ramping"), cap[c])], "<=")
                        R.lin("ramping down", net(t, -1) + net(t - 1, 1) + [(-g("flow_ramping"), cap[c])], "<=")

            # sources and sinks
            def scaled(what, k, value, op, scale, t):
                if scale == "per_area":
                    R.lin(what, [(1, k), (-value, area)], op)  # noqa: B023
                elif scale == "per_cap":
                    R.lin(what, [(1, k)] + [(-value, cap[c]) for c in cs], op)  # noqa: B023
                else:
                    R.lin(what, [(1, k)], op, value)

            for t, k in su.items():
                unit = g("source_unit", "absolute")
                R.lin("source within its capacity", [(1, k), (-S.res[t], sc)], "<=")
                if given("source_use_equals", t=t):
                    scaled("source used exactly", k, g("source_use_equals", t=t), "==", unit, t)
                else:
                    if given("source_use_max", t=t):
                        scaled("source used at most", k, g("source_use_max", t=t), "<=", unit, t)
                    if given("source_use_min", t=t):
                        scaled("source used at least", k, g("source_use_min", t=t), ">=", unit, t)
                if not store:
                    for c in cout:
                        R.lin("outflow from the source", [(1 / eff_o[c, t], fo[c, t]), (-g("source_eff", 1, t=t), k)], "==")
            if kind == "demand":
                unit = g("sink_unit", "absolute")
                for (c, t), k in fi.items():
                    for what, op in (("sink_use_equals", "=="), ("sink_use_max", "<="), ("sink_use_min", ">=")):
                        if given(what, t=t) and (what == "sink_use_equals" or not given("sink_use_equals", t=t)):
                            v = g(what, t=t) / eff_i[c, t]
                            scaled(what, k, v, op, unit, t)
            inflow = lambda t: [(eff_i[c, t], fi[c, t]) for c in cin]  # noqa: B023,E731
            outflow = lambda t: [(-1 / eff_o[c, t], fo[c, t]) for c in cout]  # noqa: B023,E731
            if kind == "conversion" and not store:
                for t in ts:
                    R.lin("conversion", inflow(t) + outflow(t), "==")
            if kind == "transmission":
                pass  # below, per link

            # storage
            if store and kind != "demand":
                cyclic, keep = bool(g("cyclic_storage", True)), lambda t: (1 - g("storage_loss", 0, t=t)) ** S.res[t]  # noqa: B023,E731
                keep_from = lambda t, now: (1 - g("storage_loss", 0, t=now)) ** S.res[t]  # noqa: B023,E731
                for t in ts:
                    first = t == 0 or t in s.get("cluster_first", ())
                    if t == 0 and not cyclic:
                        before = [(g("storage_initial", 0), stcap)]
                    else:
                        prev = s["cluster_last"][t] if first and "cluster_last" in s else t - 1 if t else ts[-1]
                        before = [(keep_from(prev, t), st[prev])]
                    terms = [(-1, st[t])] + before + outflow(t)
                    terms += [(g("source_eff", 1, t=t), su[t])] if kind == "supply" else inflow(t)
                    merged = {}
                    for c_, k_ in terms:
                        merged[k_] = merged.get(k_, 0) + c_
                    R.lin("storage balance", [(c_, k_) for k_, c_ in merged.items()], "==")
                    R.lin("storage within its capacity", [(1, st[t]), (-1, stcap)], "<=")
                    if given("storage_discharge_depth"):
                        R.lin("depth of discharge", [(1, st[t]), (-g("storage_discharge_depth"), stcap)], ">=")
                if cyclic and given("storage_initial"):
                    R.lin("initial storage of a cycle", [(keep(ts[-1]), st[ts[-1]]), (-g("storage_initial"), stcap)], "==")

            # costs
            for cl in S.costs():
                weight = S.get(node, tech, "objective_cost_weights", None, cost=cl) if "objective_cost_weights" in s.get("params", {}) else 1.0
                w = 1.0 if weight is None else weight
                k_ = lambda name, **kw: S.get(node, tech, name, 0, cost=cl, **kw)  # noqa: B023,E731
                half = 0.5 if kind == "transmission" else 1.0
                per_km = k_("cost_flow_cap_per_distance") * S.get(node, tech, "distance", 1) if kind == "transmission" else 0
                invest = [((k_("cost_flow_cap", carrier=c) + per_km) * half, cap[c]) for c in cs]
                if store:
                    invest.append((k_("cost_storage_cap"), stcap))
                if sc:
                    invest.append((k_("cost_source_cap"), sc))
                if area:
                    invest.append((k_("cost_area_use"), area))
                if units:
                    invest.append(((k_("cost_purchase") + (k_("cost_purchase_per_distance") * g("distance", 1) if kind == "transmission" else 0)) * half, units))
                year = S.hours / 8760
                rate, life = k_("cost_interest_rate"), g("lifetime", INF)
                if S.get(node, tech, "cost_depreciation_rate", None, cost=cl) is not None:
                    annuity = k_("cost_depreciation_rate")
                elif rate:
                    annuity = rate / (1 - (1 + rate) ** -life)
                else:
                    annuity = 1 / life
                for v, kk in invest:
                    R.cost.append((w * v * year * (annuity + k_("cost_om_annual_investment_fraction")), kk))
                for c in cs:
                    R.cost.append((w * year * k_("cost_om_annual"), cap[c]))
                for (c, t), kk in fo.items():
                    R.cost.append((w * S.weights[t] * k_("cost_flow_out", carrier=c, t=t), kk))
                if kind != "supply":
                    for (c, t), kk in fi.items():
                        R.cost.append((w * S.weights[t] * k_("cost_flow_in", carrier=c, t=t), kk))
                for t, kk in su.items():
                    R.cost.append((w * S.weights[t] * k_("cost_source_use", t=t), kk))
                for (c, t), kk in fx.items():
                    R.cost.append((w * S.weights[t] * k_("cost_export", t=t), kk))

        if kind == "transmission":
            for t in ts:
                terms = []
                for node in ends(s, tech):
                    cin, cout = carriers(p.get("carrier_in")), carriers(p.get("carrier_out"))
                    if p.get("one_way"):
                        cin, cout = (cin, []) if node == p["link_from"] else ([], cout)
                    d = S.get(node, tech, "distance", 1)
                    for c in cin:
                        e = S.get(node, tech, "flow_in_eff", 1, t=t) * S.get(node, tech, "flow_in_eff_per_distance", 1) ** d
                        terms.append((e, key("flow_in", nodes=node, techs=tech, carriers=c, timesteps=S.ts[t])))
                    for c in cout:
                        e = S.get(node, tech, "flow_out_eff", 1, t=t) * S.get(node, tech, "flow_out_parasitic_eff", 1, t=t) * S.get(node, tech, "flow_out_eff_per_distance", 1) ** d
                        terms.append((-1 / e, key("flow_out", nodes=node, techs=tech, carriers=c, timesteps=S.ts[t])))
                R.lin("transmission", terms, "==")

    if "inflow minimum" in defects:
        for (tech, c), caps in cap_of.items():
            p = techs[tech]
            for k in caps:
                node = dict(k[1])["nodes"]
                if c not in carriers(p.get("carrier_out")) and S.given(node, tech, "flow_out_min_relative") and not (S.get(node, tech, "cap_method") == "integer" and S.get(node, tech, "integer_dispatch")):
                    R.lin("recorded defect", [(1, k)], "<=")
    for (tech, c), caps in cap_of.items():
        if S.given(ends(s, tech)[0], tech, "flow_cap_max_systemwide"):
            R.lin("system-wide maximum", [(1, k) for k in caps], "<=", S.get(ends(s, tech)[0], tech, "flow_cap_max_systemwide"))
        if S.given(ends(s, tech)[0], tech, "flow_cap_min_systemwide"):
            v = S.get(ends(s, tech)[0], tech, "flow_cap_min_systemwide")
            if tech in units_of:
                R.lin("system-wide minimum per unit", [(1, k) for k in caps] + [(-v, k) for k in units_of[tech]], ">=")
            else:
                R.lin("system-wide minimum", [(1, k) for k in caps], ">=", v)
    for tech, ks in units_of.items():
        for name, op in (("purchased_units_max_systemwide", "<="), ("purchased_units_min_systemwide", ">=")):
            if S.given(ends(s, tech)[0], tech, name):
                R.lin(name, [(1, k) for k in ks], op, S.get(ends(s, tech)[0], tech, name))
    for node, areas in area_at.items():
        if "available_area" in s.get("node_params", {}).get(node, {}):
            R.lin("area of a node", [(1, k) for k in areas], "<=", s["node_params"][node]["available_area"])
    safe = s.get("build", {}).get("ensure_feasibility")
    for (node, c, t), terms in flow_at.items():
        if safe:
            um = R.var("unmet_demand", nodes=node, carriers=c, timesteps=S.ts[t])
            us = R.var("unused_supply", -INF, 0.0, nodes=node, carriers=c, timesteps=S.ts[t])
            terms = terms + [(1, um), (1, us)]
            R.cost += [(S.weights[t] * big, um), (-S.weights[t] * big, us)]
        R.lin("balance", terms, "==")
    for k, (lb, ub, whole) in R.vars.items():
        if lb > -INF or ub < INF:
            R.need("bounds", (k,), lambda x, lb=lb, ub=ub: (x >= lb - TOL) & (x <= ub + TOL))
        if whole:
            R.need("whole numbers", (k,), lambda x: np.abs(x - np.round(x)) <= TOL)
    return R


def unit_rules(R, S, s, ts, node, tech, g, given, cs, units, cap, stcap, area, sc, fo, fi, big):
    """Rules of the unit commitment math: the capacity available per carrier and step as {(carrier, step): (variable, units -> capacity)}."""
    ix = dict(nodes=node, techs=tech)
    available = {}
    dispatch = bool(g("integer_dispatch", False))
    running = {}
    if units and dispatch:
        for t in ts:
            running[t] = R.var("operating_units", 0, INF, True, timesteps=S.ts[t], **ix)
            R.lin("only purchased units run", [(1, running[t]), (-1, units)], "<=")
    for c in cs:
        size, most, least = (g(x, None, carrier=c) if given(x, carrier=c) else None for x in ("flow_cap_per_unit", "flow_cap_max", "flow_cap_min"))
        if units and size is not None:
            R.lin("capacity is that of the units", [(1, cap[c]), (-size, units)], "==")
        if units:
            R.lin("no capacity without a purchase", [(1, cap[c]), (-(big if most is None else most), units)], "<=")
        if least is not None:
            R.lin("capacity of a purchase, at least", [(1, cap[c])] + ([(-least, units)] if units else []), ">=", 0 if units else least)
        for t in ts:
            if t in running and size is not None:
                available[c, t] = (running[t], size)
            elif t in running and most is not None:
                a = R.var("available_flow_cap", carriers=c, timesteps=S.ts[t], **ix)
                available[c, t] = (a, 1)
                R.lin("available capacity at most the installed one", [(1, a), (-1, cap[c])], "<=")
                R.lin("no available capacity when off", [(1, a), (-most, running[t])], "<=")
                R.lin("the installed capacity is available when on", [(1, a), (-1, cap[c]), (-most, running[t]), (most, units)], ">=")
    if units and stcap and given("storage_cap_per_unit"):
        R.lin("storage capacity is that of the units", [(1, stcap), (-g("storage_cap_per_unit"), units)], "==")
    if units and stcap and given("storage_cap_max"):
        R.lin("no storage without a purchase", [(1, stcap), (-g("storage_cap_max"), units)], "<=")
    for what, k in (("storage_cap_min", stcap), ("area_use_min", area), ("source_cap_min", sc)):
        if k and given(what):
            R.lin(f"{what} of a purchase", [(1, k)] + ([(-g(what), units)] if units else []), ">=", 0 if units else g(what))
    if g("force_async_flow", False):
        for t in ts:
            sw = R.var("async_flow_switch", 0, 1, True, timesteps=S.ts[t], **ix)
            if fi:
                R.lin("inflow only when switched in", [(1, fi[c, t]) for c in cs if (c, t) in fi] + [(big, sw)], "<=", big)
            if fo:
                R.lin("outflow only when switched out", [(1, fo[c, t]) for c in cs if (c, t) in fo] + [(-big, sw)], "<=")
    return available


def matrix_rules(ex):
    """The extracted problem as rules over its own variables."""
    R = Rules()
    for k, (lb, ub, integer, fixed) in ex["variables"].items():
        lb = -INF if lb is None else lb
        ub = INF if ub is None else ub
        R.vars[k] = (lb, ub, bool(integer))
        R.need("bounds", (k,), lambda x, lb=lb, ub=ub: (x >= lb - TOL) & (x <= ub + TOL))
        if integer:
            R.need("integer", (k,), lambda x: np.abs(x - np.round(x)) <= TOL)
    for (name, idx), (lb, form, ub) in ex["constraints"].items():
        const = 0.0
        terms = []
        quadratic = []
        for term, c in form:
            if term == ():
                const += c
            elif len(term) == 1:
                terms.append((c, term[0]))
            else:
                quadratic.append((c, term))
        scope = sorted({k for _, k in terms} | {k for _, t in quadratic for k in t}, key=repr)
        pos = {k: i for i, k in enumerate(scope)}
        lo = -INF if lb is None else lb
        hi = INF if ub is None else ub

        def pred(*cols, const=const, terms=terms, quadratic=quadratic, pos=pos, lo=lo, hi=hi):
            x = const
            for c, k in terms:
                x = x + c * cols[pos[k]]
            for c, t in quadratic:
                x = x + c * cols[pos[t[0]]] * cols[pos[t[1]]]
            return (x >= lo - TOL) & (x <= hi + TOL)

        R.need(f"{name}{dict(idx)}", scope, pred)
    _, sense, form, const = ex["objective"]
    R.constant = const
    R.sense = sense
    for term, c in form:
        if term == ():
            R.constant += c
        else:
            R.cost.append((c, term[0]))
    return R


# --- enumeration ----------------------------------------------------------------------------------

ORDER = ["purchased_units", "available_flow_cap", "async_flow_switch", "operating_units", "link_flow_cap", "flow_cap", "storage_cap", "source_cap", "area_use"]


def order_of(keys):
    def k(x):
        name, idx = x
        d = dict(idx)
        t = d.get("timesteps") or d.get("datesteps") or ""
        return (t, ORDER.index(name) if name in ORDER else 50, str(d.get("nodes", "")), str(d.get("techs", "")), {"source_use": 0, "flow_in": 1, "flow_out": 2}.get(name, 3), name, repr(idx))
    return sorted(keys, key=k)


class TooMany(Exception):
    pass


def enumerate_plans(order, domains, rules, limit=3_000_000):
    """All plans over the domains satisfying the rules: (table of domain positions, number of partial plans visited)."""
    pos = {k: i for i, k in enumerate(order)}
    due = [[] for _ in order]
    for name, scope, pred in rules:
        due[max(pos[k] for k in scope) if scope else 0].append(([pos[k] for k in scope], pred))
    doms = [np.asarray(domains[k], dtype=float) for k in order]
    table = np.zeros((1, 0), dtype=np.uint8)
    visited = 0
    for i in range(len(order)):
        n = len(doms[i])
        if len(table) * n > limit:
            raise TooMany(f"{len(table)} x {n} at {order[i]}")
        table = np.hstack([np.repeat(table, n, axis=0), np.tile(np.arange(n, dtype=np.uint8), len(table))[:, None]])
        visited += len(table)
        cols = {}
        for scope, pred in due[i]:
            if not len(table):
                break
            args = [doms[j][table[:, j]] for j in scope]
            ok = pred(*args)
            if np.isscalar(ok) or getattr(ok, "shape", ()) == ():
                ok = np.full(len(table), bool(ok))
            if not ok.all():
                table = table[ok]
    return table, visited, doms


def objective(order, table, doms, cost, constant=0.0):
    pos = {k: i for i, k in enumerate(order)}
    x = np.full(len(table), float(constant))
    for c, k in cost:
        if c:
            x = x + c * doms[pos[k]][table[:, pos[k]]]
    return x


def show(order, row, doms):
    out = {}
    for i, k in enumerate(order):
        v = float(doms[i][row[i]])
        d = dict(k[1])
        if v:
            out[f"{k[0]}[{','.join(str(x)[11:16] if n == 'timesteps' else str(x) for n, x in sorted(d.items()))}]"] = v
    return out


def violated(order, row, doms, rules):
    pos = {k: i for i, k in enumerate(order)}
    out = []
    for name, scope, pred in rules:
        args = [np.array([doms[pos[k]][row[pos[k]]]]) for k in scope]
        if not np.all(pred(*args)):
            out.append(name)
    return out


def compare(s, ex, rules, domains, res, what, limit=3_000_000):
    """Both sets of valid plans and their costs; returns (order, table, doms, costs) of the valid plans or None."""
    spec, built = rules, matrix_rules(ex)
    if set(spec.vars) != set(built.vars):
        extra, missing = sorted(set(built.vars) - set(spec.vars)), sorted(set(spec.vars) - set(built.vars))
        res.fail(f"variables:{what}", f"the built problem has variables that do not belong to the system: {extra[:3]}; it lacks {missing[:3]}")
        return None
    order = order_of(spec.vars)
    doms = {k: domains(k) for k in order}
    a, na, dv = enumerate_plans(order, doms, spec.rules, limit)
    b, nb, _ = enumerate_plans(order, doms, built.rules, limit)
    res.states += na
    res.transitions += nb
    sa, sb = {r.tobytes() for r in a}, {r.tobytes() for r in b}
    if sa != sb:
        for bad, r, side in ((sb - sa, spec, "accepted"), (sa - sb, built, "refused")):
            if bad:
                row = np.frombuffer(min(bad), dtype=np.uint8)
                why = violated(order, row, dv, r.rules)
                verb = "is accepted although it breaks" if side == "accepted" else "is valid but refused by"
                res.fail(f"{side}:{what}", f"{len(bad)} of {len(sa)} valid plans differ; e.g. {show(order, row, dv)} {verb} {sorted(set(why))[:4]}")
        return None
    ca = objective(order, a, dv, spec.cost)
    cb = objective(order, a, dv, built.cost, built.constant)
    off = np.abs(ca - cb) > 1e-6 * np.maximum(1, np.abs(ca))
    if off.any():
        i = int(np.argmax(off))
        res.fail(f"cost:{what}", f"plan {show(order, a[i], dv)} costs {ca[i]:.10g}, the built objective says {cb[i]:.10g}")
        return None
    return order, a, dv, ca
