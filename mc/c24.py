"""C24: optional built-in math keeps its documented meaning.

units: systems with the unit commitment math; their rows are read back from the solver interface and both the plans allowed by the
documented rules and the plans allowed by the rows are enumerated completely on a grid (as in C18): the sets and all costs must agree,
and the solver's optimum must be one of the valid plans and the cheapest.
neutral: systems of C18 that use none of the inputs of the optional math, built with it, must keep exactly their valid plans.
days: systems with the inter-cluster storage math for every assignment of days to representative days.  All plans of flows on the
representative steps are enumerated; the level of the storage is followed hour by hour over the original sequence of days.  The plans
with a level always between nothing and the capacity must be exactly those for which the built rows have a solution.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import c18, c19, fast, plans, problem, systems
from mc.plans import INF, C, K, T

fast.memo_grammars()

PROPERTY, LEVEL = "C24", "model_checking"
RULE = "systems with at least two valid plans and at least one refused plan of the grid"
ASSUMPTIONS = ["rules are restated in mc/plans.py and here from the documentation of the parameters, variables and constraints",
               "with storage losses the inter-cluster math bounds the level of a day by its largest and smallest change within the day (documented as in Kotzur et al.); without losses the bound is exact",
               "plans are compared on a finite grid of values"]
BOUNDS = {"quick": "about 190 systems of 1-2 nodes, 1-3 steps; all assignments of three days to up to two representative days for 12 storage settings",
          "thorough": "all combinations of the parameter values of each family, about 1400 systems; all assignments of four days for 18 settings"}
CASE_TIMEOUT = 600

SMALL_SINK = c18.SMALL_SINK
c18.DOMAINS |= {"purchased_units": [0, 1, 2], "operating_units": [0, 1, 2], "available_flow_cap": [0, 1, 2], "async_flow_switch": [0, 1]}
combos, sys_ = c18.combos, c18.sys_
INT = {"cap_method": "integer"}
FREE = {("flow_cap", "s"): [2], ("source_cap", "s"): [2], ("source_use", "s"): [0, 1, 2], ("flow_out", "s"): [0, 1, 2], ("flow_in", "dem"): [0, 1, 2], ("flow_cap", "dem"): [4]}


def family(name):
    m = {"math": ["milp"]}
    s = {"base_tech": "supply", "carrier_out": "e"}
    if name == "units":
        for p in combos(flow_cap_per_unit=(None, 1, 2), purchased_units_min=(None, 1), purchased_units_max=(None, 1, 2), flow_cap_max=(None, 1), flow_cap_min=(None, 1), source_cap_min=(None, 1), cap_method=("integer", "continuous")):
            if p.get("flow_cap_per_unit") and ("flow_cap_max" in p or "flow_cap_min" in p):
                continue
            yield p, sys_({"s": s | p}, "1", **m), SMALL_SINK
    if name == "units_area":
        for p in combos(area_use_min=(None, 1), area_use_max=(None, 2), area_use_per_flow_cap=(None, 0.5), flow_cap_max=(None, 2), source_cap_max=(None, 2), cap_method=("integer", None)):
            for avail in (None, 1):
                yield p | {"available": avail}, sys_({"s": s | p}, "1", node_params={"a": {"available_area": avail}} if avail else {}, **m), SMALL_SINK
    if name == "units_storage":
        for p in combos(storage_cap_per_unit=(None, 2), storage_cap_max=(None, 2), storage_cap_min=(None, 2), flow_cap_per_unit=(None, 1), flow_cap_max=(None, 1), purchased_units_max=(None, 1), cap_method=("integer", None)):
            if ("storage_cap_per_unit" in p and ("storage_cap_max" in p or "storage_cap_min" in p)) or ("flow_cap_per_unit" in p and "flow_cap_max" in p):
                continue
            techs = {"st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "cyclic_storage": False, "storage_initial": 0.5, **p}}
            yield p, sys_(techs, "1", **m), SMALL_SINK | {("storage", "st"): [0, 0.5, 1, 1.5, 2, 3, 4]}
    if name == "systemwide":
        for p in combos(purchased_units_max_systemwide=(None, 1, 2, INF), purchased_units_min_systemwide=(None, 1, 2), flow_cap_min_systemwide=(None, 1), flow_cap_per_unit=(None, 1), flow_cap_max_systemwide=(None, 2)):
            for other in (None, "integer"):
                techs = {"s": s | INT | p, "r": s | ({"cap_method": "integer"} if other else {}) | {"flow_cap_max": 1, "source_cap_max": 1}, "dem": {"base_tech": "demand", "carrier_in": "e"}}
                nodes = {"a": {"s": None, "dem": None}, "b": {"s": None, "r": None, "dem": None}}
                yield p | {"other": other}, sys_(techs, "1", nodes, **m), SMALL_SINK | {("source_cap", "s"): [2], ("source_use", "s"): [0, 1], ("flow_out", "s"): [0, 1], ("flow_in", "dem"): [0, 1, 2], ("source_cap", "r"): [1], ("source_use", "r"): [0, 1], ("flow_out", "r"): [0, 1], ("flow_cap", "r"): [0, 1], ("purchased_units", "r"): [0, 1]}
    if name == "dispatch":
        for p in combos(flow_cap_per_unit=(1, 2), flow_out_min_relative=(None, 0.5), flow_out_parasitic_eff=(None, 0.5), flow_out_eff=(None, 0.5), purchased_units_max=(None, 1)):
            for h in ("2", "m"):
                yield p | {"hours": h}, sys_({"s": s | INT | {"integer_dispatch": True} | p}, h, **m), FREE | {("flow_cap", "s"): [0, 1, 2, 4], ("source_cap", "s"): [4], ("source_use", "s"): [0, 1, 2, 4], ("flow_out", "s"): [0, 0.5, 1, 2]} | ({("flow_out", "s"): [0, 1, 2], ("source_use", "s"): [0, 1, 2]} if h == "m" else {})
    if name == "available":
        for p in combos(flow_cap_max=(1, 2), flow_out_min_relative=(None, 0.5), flow_out_parasitic_eff=(None, 0.5), flow_cap_min=(None, 1), purchased_units_max=(1, None)):
            for h in ("1", "2"):
                yield p | {"hours": h}, sys_({"s": s | INT | {"integer_dispatch": True} | p}, h, **m), FREE | {("flow_cap", "s"): [0, 1, 2], ("source_cap", "s"): [2], ("flow_out", "s"): [0, 0.5, 1, 2], ("source_use", "s"): [0, 0.5, 1, 2], ("flow_in", "dem"): [0, 0.5, 1, 2]} | ({("purchased_units", "s"): [0, 1], ("operating_units", "s"): [0, 1]} if h == "2" else {})
    if name == "convert":
        for p in combos(flow_cap_per_unit=(None, 1, C(g=2, e=1), C(e=1)), flow_cap_max=(None, 2, C(g=2)), flow_out_eff=(None, 0.5), integer_dispatch=(True, None), force_async_flow=(None, True)):
            if "flow_cap_per_unit" in p and "flow_cap_max" in p:
                continue
            techs = {"cv": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": "e", **INT, **p}, "s": {"base_tech": "supply", "carrier_out": "g"}, "dem": {"base_tech": "demand", "carrier_in": "e"}}
            yield p, sys_(techs, "1", **m), FREE | {("flow_cap", "s"): [4]}
    if name == "async":
        for what in ("storage", "transmission", "conversion", "supply", "demand"):
            for p in combos(force_async_flow=(True, False), flow_cap_max=(None, 1), cap_method=(None, "integer"), integer_dispatch=(None, True)):
                if p.get("integer_dispatch") and not p.get("cap_method"):
                    continue
                techs = {"s": dict(s), "dem": {"base_tech": "demand", "carrier_in": "e"}}
                nodes, hours = None, "2"
                if what == "storage":
                    techs["x"] = {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "storage_initial": 0.5, "cyclic_storage": False, **p}
                elif what == "transmission":
                    techs["x"] = {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", **p}
                    nodes, hours = {"a": {"s": None, "dem": None}, "b": {"dem": None}}, "1"
                elif what == "conversion":
                    techs["x"] = {"base_tech": "conversion", "carrier_in": ["e", "g"], "carrier_out": "h", "flow_in_eff": C(g=2), **p}
                    techs |= {"g": {"base_tech": "supply", "carrier_out": "g"}, "demh": {"base_tech": "demand", "carrier_in": "h"}}
                    hours = "1"
                elif what == "supply":
                    techs["s"] |= p
                else:
                    techs["dem"] |= p
                few = {(v, t): d for t in ("s", "g") for v, d in (("flow_cap", [2]), ("source_cap", [2]), ("source_use", [0, 1]), ("flow_out", [0, 1]))}
                yield p | {"what": what}, sys_(techs, hours, nodes, **m), few | {("flow_cap", "dem"): [2], ("flow_cap", "demh"): [4], ("flow_in", "dem"): [0, 1], ("flow_cap", "x"): [0, 1], ("flow_in", "x"): [0, 1], ("flow_out", "x"): [0, 1, 2, 3] if what == "conversion" else [0, 1],
                                                                           ("storage_cap", "x"): [2], "storage": [0, 1, 2], "link_flow_cap": [0, 1], "purchased_units": [0, 1], "operating_units": [0, 1], "available_flow_cap": [0, 1]} | \
                    ({("flow_cap", what2): [0, 1, 2] for what2 in ("s", "dem")} if what in ("supply", "demand") else {})
    if name == "link_units":
        for p in combos(flow_cap_per_unit=(None, 1), purchased_units_max=(None, 1), flow_cap_min=(None, 1), flow_out_eff=(None, 0.5), one_way=(None, True), integer_dispatch=(None, True)):
            if "flow_cap_per_unit" in p and "flow_cap_min" in p:
                continue
            techs = {"li": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", **INT, **p}, "s": s, "dem": {"base_tech": "demand", "carrier_in": "e"}}
            yield p, sys_(techs, "1", {"a": {"s": None, "dem": None}, "b": {"dem": None}}, **m), FREE | {("flow_in", "li"): [0, 1, 2], ("flow_out", "li"): [0, 0.5, 1], ("flow_in", "dem"): [0, 0.5, 1, 2], "purchased_units": [0, 1], "operating_units": [0, 1], ("flow_cap", "s"): [4], ("source_cap", "s"): [4], ("source_use", "s"): [0, 1, 2]}
    if name == "purchase_cost":
        for p in combos(cost_purchase=(None, K(m=100)), cost_purchase_per_distance=(None, K(m=10)), distance=(None, 3), cost_flow_cap=(None, K(m=7)), cost_interest_rate=(None, K(m=0.1)), cost_om_annual_investment_fraction=(None, K(m=0.02)), flow_cap_per_unit=(None, 1)):
            for what in ("li", "s"):
                if what == "s" and ("cost_purchase_per_distance" in p or "distance" in p):
                    continue
                techs = {"s": dict(s), "dem": {"base_tech": "demand", "carrier_in": "e"}, "li": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b"}}
                techs[what] |= INT | {"lifetime": 10} | p
                yield p | {"what": what}, sys_(techs, "1", {"a": {"s": None}, "b": {"dem": None}}, **m), {"flow_cap": [0, 1], "source_cap": [0, 1], "flow_out": [0, 1], "flow_in": [0, 1], "source_use": [0, 1], "link_flow_cap": [0, 1], ("flow_cap", "dem"): [1], "purchased_units": [0, 1, 2]}


FAMILIES = {"units": 13, "units_area": 7, "units_storage": 7, "systemwide": 11, "dispatch": 7, "available": 7, "convert": 5, "async": 5, "link_units": 7, "purchase_cost": 7}
NEUTRAL = {"supply": 41, "supply_units": 47, "area": 13, "caps": 29, "storage": 45, "storage_ratio": 15, "supply_storage": 55, "conversion": 17, "conversion_more": 13, "link": 67, "demand": 55, "ramp": 13, "export": 19, "unmet": 11, "costs": 31, "opcosts": 19, "two": 9}


# --- days -----------------------------------------------------------------------------------------

SETTINGS = [dict(cyclic_storage=c, storage_initial=i, storage_loss=l, include=k) for c in (True, False) for i in (None, 0.5, 0.25) for l in (0, 0.5) for k in ("storage", "supply") if not (c and l)]
SETTINGS.append(dict(cyclic_storage=False, storage_initial=0.5, storage_loss=0, include="storage", depth=0.25))
HALF_DAY = 12


def day_system(label, days, assign):
    set_ = SETTINGS[label]
    p = {"cyclic_storage": set_["cyclic_storage"]}
    if set_["storage_initial"] is not None:
        p["storage_initial"] = set_["storage_initial"]
    if "depth" in set_:
        p["storage_discharge_depth"] = set_["depth"]
    if set_["storage_loss"]:
        p["storage_loss"] = 1 - set_["storage_loss"] ** (1 / HALF_DAY)  # the share kept over one step is the setting
    if set_["include"] == "storage":
        p["flow_out_eff"] = 0.5
        techs = {"st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", **p}, "s": {"base_tech": "supply", "carrier_out": "e"}}
    else:
        techs = {"st": {"base_tech": "supply", "carrier_out": "e", "include_storage": True, **p}, "s": {"base_tech": "supply", "carrier_out": "e"}}
    s = sys_(techs, "1", math=["storage_inter_cluster"]) | {"ts": plans.stamps([HALF_DAY * i for i in range(2 * days)]), "cluster": list(assign)}
    return s, set_


def levels(set_, days, assign, change, cap):
    """Level at the start of every day (None if it must repeat over the horizon) and the steps' levels, for changes per representative step."""
    keep = set_["storage_loss"] or 1.0
    intra = {}
    for d in set(assign):
        x = 0.0
        for h in (0, 1):
            x = x * (keep if h else 0.0) + change[d, h]
            intra[d, h] = x
    return keep, intra


def valid_days(set_, days, assign, change, cap, tol=1e-6, recorded=False):
    """Whether the levels over the original days stay within the capacity.

    recorded: with the recorded defect, i.e. the prescribed initial level of a cycle is that at the start of the last day.
    """
    keep, intra = levels(set_, days, assign, change, cap)
    lo = {d: min(intra[d, 0], intra[d, 1]) for d in set(assign)}
    hi = {d: max(intra[d, 0], intra[d, 1]) for d in set(assign)}
    ini = set_["storage_initial"]

    def ok(start):
        x = start
        for d in assign:
            if x < -tol or x + hi[d] > cap + tol or x * keep**2 + lo[d] < -tol:
                return None
            x = x * keep**2 + intra[d, 1]
        return x

    if not set_["cyclic_storage"]:
        return ok((ini or 0.0) * cap) is not None
    total = sum(intra[d, 1] for d in assign)
    if abs(total) > tol:  # no losses: the level must return to where it was
        return False
    if ini is not None:
        return ok(ini * cap + (intra[assign[-1], 1] if recorded else 0.0)) is not None
    run, need_lo, need_hi = 0.0, 0.0, cap
    for d in assign:
        need_lo = max(need_lo, -run, -run - lo[d])
        need_hi = min(need_hi, cap - run - hi[d])
        run += intra[d, 1]
    return need_lo <= need_hi + tol


FLOWS = {"storage": {"in": [0, 6, 12], "out": [0, 3, 6]}, "supply": {"in": [0, 6, 12], "out": [0, 6, 12]}}


SIZES = (6, 24)


def feasible(rows, fixed):
    """Whether the rows (over the virtual storage variables) have a solution: elimination by Fourier-Motzkin after the equalities."""
    eqs, les = [], []
    for lb, terms, ub in rows:
        form, const = {}, 0.0
        for k, c in terms.items():
            if k in fixed:
                const += c * fixed[k]
            elif c:
                form[k] = c
        if lb is not None and ub is not None and abs(lb - ub) < 1e-12:
            eqs.append((form, lb - const))
        else:
            if ub is not None:
                les.append((form, ub - const))
            if lb is not None:
                les.append(({k: -c for k, c in form.items()}, const - lb))
    tol = 1e-6
    while eqs:
        form, rhs = eqs.pop()
        form = {k: c for k, c in form.items() if abs(c) > 1e-9}
        if not form:
            if abs(rhs) > tol:
                return False
            continue
        v = max(form, key=lambda k: abs(form[k]))
        c = form.pop(v)
        sub, const = {k: -x / c for k, x in form.items()}, rhs / c

        def put(f, r):
            a = f.pop(v, 0.0)
            if a:
                r = r - a * const
                for k, x in sub.items():
                    f[k] = f.get(k, 0.0) + a * x
            return f, r
        eqs = [put(dict(f), r) for f, r in eqs]
        les = [put(dict(f), r) for f, r in les]
    names = sorted({k for f, _ in les for k in f}, key=repr)
    while names:
        v = min(names, key=lambda k: (sum(f.get(k, 0) > 1e-12 for f, _ in les) * sum(f.get(k, 0) < -1e-12 for f, _ in les), repr(k)))
        names.remove(v)
        up = [(f, r) for f, r in les if f.get(v, 0) > 1e-12]
        dn = [(f, r) for f, r in les if f.get(v, 0) < -1e-12]
        rest = [({k: x for k, x in f.items() if k != v}, r) for f, r in les if abs(f.get(v, 0)) <= 1e-12]
        for (f, r), (g, q) in itertools.product(up, dn):
            a, b = f[v], -g[v]
            h = {}
            for k, x in f.items():
                h[k] = h.get(k, 0) + x / a
            for k, x in g.items():
                h[k] = h.get(k, 0) + x / b
            h.pop(v, None)
            rest.append(({k: x for k, x in h.items() if abs(x) > 1e-12}, r / a + q / b))
        les, seen = [], set()
        for f, r in rest:
            if not f:
                if r < -tol:
                    return False
                continue
            sig = (tuple(sorted((repr(k), round(x, 9)) for k, x in f.items())), round(r, 9))
            if sig not in seen:
                seen.add(sig)
                les.append((f, r))
    return True


def days_case(case, res):
    _, label, days, assign = case
    s, set_ = day_system(label, days, assign)
    what = f"days:{set_}:{list(assign)}"
    m = systems.build(c19.load(s))
    ex = problem.extract(m.backend)
    kind = set_["include"]
    stamps = {(d, h): s["ts"][2 * d + h] for d in set(assign) for h in (0, 1)}
    stamps = {k: np.datetime64(v).astype("datetime64[s]").item().isoformat() for k, v in stamps.items()}
    key = plans.key
    fi = {k: key("flow_in", nodes="a", techs="st", carriers="e", timesteps=t) if kind == "storage" else key("source_use", nodes="a", techs="st", timesteps=t) for k, t in stamps.items()}
    fo = {k: key("flow_out", nodes="a", techs="st", carriers="e", timesteps=t) for k, t in stamps.items()}
    cap = key("storage_cap", nodes="a", techs="st")
    virtual = {k for k in ex["variables"] if k[0].startswith("storage") and k != cap}
    need = set(fi.values()) | set(fo.values()) | {cap}
    if not need <= set(ex["variables"]):
        return res.fail(f"days:variables:{what}", f"variables {sorted(need - set(ex['variables']))[:3]} are not built")
    rows = []
    for (name, idx), (lb, form, ub) in ex["constraints"].items():
        terms = {}
        for term, c in form:
            assert len(term) == 1, (name, term)
            terms[term[0]] = c
        if set(terms) & virtual or (set(terms) <= need and "storage" in name):
            rows.append((lb, terms, ub))
    for k in virtual:
        lb, ub, _, _ = ex["variables"][k]
        lb, ub = (None if x is None or math.isinf(x) else x for x in (lb, ub))
        if lb is not None or ub is not None:
            rows.append((lb, {k: 1.0}, ub))
    others = {k for _, t, _ in rows for k in t} - virtual - need
    if others:
        return res.fail(f"days:rows:{what}", f"storage rows depend on {sorted(others)[:3]}")
    steps = sorted(stamps)
    eff = 0.5 if kind == "storage" else 1.0
    good = bad = 0
    grid = FLOWS[kind]
    one = [(a, b) for a in grid["in"] for b in grid["out"] if not (a and b) or (a, b) == (grid["in"][1], grid["out"][1])]
    for size in SIZES:
        for flows in itertools.product(one, repeat=len(steps)):
            res.states += 1
            change = {k: a - b / eff for k, (a, b) in zip(steps, flows)}
            want = valid_days(set_, days, assign, change, size)
            fixed = {cap: float(size)}
            for k, (a, b) in zip(steps, flows):
                fixed[fi[k]], fixed[fo[k]] = a, b
            got = feasible(rows, fixed)
            res.transitions += len(rows)
            good += want
            bad += not want
            if got != want and set_["cyclic_storage"] and set_["storage_initial"] and got == valid_days(set_, days, assign, change, size, recorded=True):
                res.fail("days:initial level of cyclic storage", f"days {list(assign)}, {set_}, capacity {size}, (in, out) per representative step {dict(zip(steps, flows))}: the plan is {'valid' if want else 'not valid'} but {'accepted' if got else 'refused'}")
            elif got != want and "depth" in set_ and got == (want and all(x >= set_["depth"] * size - 1e-6 for x in levels(set_, days, assign, change, size)[1].values())):
                res.fail("days:depth of discharge", f"days {list(assign)}, {set_}, capacity {size}, (in, out) per representative step {dict(zip(steps, flows))}: refused, the depth of discharge is applied to the changes of the level within the representative days")
            elif got != want:
                keyname = f"days:{'cyclic' if set_['cyclic_storage'] else 'open'}:{'initial' if set_['storage_initial'] else 'empty'}:{kind}:{'refused' if want else 'accepted'}"
                res.fail(keyname, f"days {list(assign)}, {set_}, capacity {size}, (in, out) per representative step {dict(zip(steps, flows))}: the levels over the days are {'valid' if want else 'not valid'}, the built rows {'accept' if got else 'refuse'} the plan")
    res.traces += 1
    res.counts["valid plans"] += good
    res.nontrivial += bool(good and bad)
    res.outcome((what, good, bad))


def day_cases(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for i, set_ in enumerate(SETTINGS):
        for assign in itertools.product(range(n), repeat=n):
            if any(assign[a] != a for a in set(assign)) or len(set(assign)) > 2:
                continue
            if tier == "quick" and set_["storage_initial"] == 0.25:
                continue
            out.append(("days", i, n, assign))
    return out


def cases(tier):
    out = []
    for f, n in FAMILIES.items():
        out += [("units", f, i) for i, _ in enumerate(family(f)) if tier != "quick" or i % n == 0]
    for f, n in NEUTRAL.items():
        out += [("neutral", f, i) for i, (label, _, _) in enumerate(c18.family(f)) if (i % n == 1 if tier == "quick" else i % 3 == 1) and label.get("y") != "default"]
    return out + day_cases(tier)


_FAM = {}


DEFECTS = [("flow_out_min_relative of a technology with an inflow carrier", "inflow minimum"), ("dispatch of a carrier without capacity per unit or maximum capacity", "dispatch")]


def run_case(case, res):
    if case[0] == "days":
        return days_case(case, res)
    mode, f, i = case
    if (mode, f) not in _FAM:
        _FAM[mode, f] = list((family if mode == "units" else c18.family)(f))
    label, s, over = _FAM[mode, f][i]
    if mode == "neutral":
        s = s | {"math": ["milp"]}
    doms = c18.domains(over)
    what = f"{mode}:{f}:{label}"
    c18.run_system(what, s, doms, res)
    if not res.violations:
        return
    from mc.core import Res

    for key, *defects in [*DEFECTS, (DEFECTS[0][0], DEFECTS[0][1], DEFECTS[1][1])]:
        again = Res()
        c18.run_system(what, s, doms, again, rules=lambda s: plans.base_rules(s, defects))
        if not again.violations:
            v = res.violations[0]
            res.violations.clear()
            return res.fail(key, v[1])
