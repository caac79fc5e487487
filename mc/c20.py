"""C20: shadow prices reported are those requested, for the problem solved.

histories: the session (requests, solvers with and without duals, manual (de)activation, input updates incl. one without
    solution, rebuilds) is explored as a tree of real models up to the stated depth, copying the model at each branch (or
    replaying the history where the interface cannot be copied).
prices: for systems of every feature, every constraint of the problem is requested alone and all at once, with each solver.
modes: receding horizon and near-optimal runs with requests.
Oracle for the values: the constraint's right-hand side is moved up and down in the solver's own copy of the problem (built
through the other interface); the price must lie between the two slopes of the objective (a single value unless degenerate).
"""
from __future__ import annotations

import contextlib
import copy
import itertools
import math
import pathlib
import warnings

import numpy as np

from mc import fast, problem, systems

fast.memo_grammars()

PROPERTY, LEVEL = "C20", "model_checking"
ASSUMPTIONS = ["CBC gives no duals (documented); GLPK and Gurobi do", "a price is compared with the slopes of the optimal objective on both sides, found by re-solving with the right-hand side moved by 1e-4"]
BOUNDS = {"quick": "all histories of 2 events (and 3 ending in a solve, for the events that keep a state) out of 14, on 2 interfaces and an integer problem; every constraint of 10 systems with 3 solver routes; 2 modes",
          "thorough": "all histories of 3 events; 19 systems"}
CASE_TIMEOUT = 900
EPS = 1e-4
TS = systems.TS[:2]


MATH = str(pathlib.Path(__file__).parent / "data/c20.yaml")


def load(backend, kind="lp", demand=(2, 4)):
    import calliope

    d = {
        "config": {"init": {"name": "prices", "math_paths": {"base": MATH}}, "build": {"backend": backend, "objective": "least_cost"}, "solve": {"postprocessing_active": False}},
        "techs": {"gen": {"base_tech": "supply", "carrier_out": "e", "price": 1}, "loc": {"base_tech": "supply", "carrier_out": "e", "price": 4, "flow_max": 9}, "dem": {"base_tech": "demand", "carrier_in": "e"}},
        "nodes": {"a": {"techs": {"gen": None}}, "b": {"techs": {"loc": None, "dem": None}}},
        "data_definitions": {"demand_of": {"data": list(demand), "index": [["b", t] for t in TS], "dims": ["nodes", "timesteps"]}, "p_rhs": 5},
    }
    if kind == "milp":
        d["techs"]["gen"]["whole"] = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(d)


# --- oracle ---------------------------------------------------------------------------------------

_slopes: dict = {}


def slopes(key, make):
    """{constraint: {index: (low, high)}} of the problem, from a Gurobi-interface model of the same definition."""
    if key in _slopes:
        return _slopes[key]
    import gurobipy as gp

    m = make()
    inst = m.backend._instance
    inst.update()
    inst.setParam("OutputFlag", 0)
    inst.setParam("OptimalityTol", 1e-9)
    inst.setParam("FeasibilityTol", 1e-9)
    inst.optimize()
    out = None
    if inst.status == gp.GRB.OPTIMAL:
        best = inst.ObjVal
        out = {}
        for name, da in m.backend.constraints.data_vars.items():
            out[name] = {}
            for idx, c in problem.elements(da).items():
                side, rhs = [], c.RHS
                for s in (1, -1):
                    c.RHS = rhs + s * EPS
                    inst.optimize()
                    side.append((inst.ObjVal - best) / (s * EPS) if inst.status == gp.GRB.OPTIMAL else s * inst.ModelSense * math.inf)
                c.RHS = rhs
                inst.update()
                out[name][idx] = (min(side), max(side))
        inst.optimize()
        m.backend.mc_best = best
    _slopes[key] = out
    return out


def wrong_price(want, got, what):
    """First price outside its slopes, or an index difference."""
    if set(want) != set(got):
        return f"{what}: prices for {len(got)} elements, the constraint has {len(want)} (e.g. {sorted(set(want) ^ set(got), key=repr)[0]})"
    for idx, (lo, hi) in want.items():
        v = got[idx]
        tol = 1e-5 * max(1, *(abs(x) for x in (lo, hi) if math.isfinite(x)), 1)
        if not (lo - tol <= v <= hi + tol):
            return f"{what}: {dict(idx)} is reported as {v:.8g}, the objective changes by {lo:.8g} to {hi:.8g} per unit"
    return None


# --- histories ------------------------------------------------------------------------------------

REQ = {"none": (), "sb": ("system_balance",), "mine": ("mine",), "both": ("system_balance", "balance_demand"), "bad": ("nope",), "mixed": ("off", "mine"), "empty": ("nothing", "balance_demand")}
VARIANTS = {"v1": (2, 4), "v2": (3, 1), "no": (50, 50)}
EVENTS = {
    "pyomo": [("solve", r, "glpk") for r in REQ] + [("solve", "sb", "cbc"), ("solve", "none", "cbc"), ("solve", "mine", "gurobi"), ("solve", "keep", "glpk"), ("activate",), ("deactivate",), ("update", "v2"), ("update", "v1"), ("update", "no"), ("rebuild",)],
    "gurobi": [("solve", r, "gurobi") for r in REQ] + [("solve", "keep", "gurobi"), ("activate",), ("deactivate",), ("update", "v2"), ("update", "no"), ("rebuild",)],
    "milp": [("solve", r, s) for r in ("none", "sb", "bad", "mixed") for s in ("glpk", "cbc")] + [("activate",), ("deactivate",), ("update", "v2"), ("rebuild",)],
    "milpg": [("solve", r, "gurobi") for r in ("none", "sb", "bad")] + [("activate",), ("update", "v2"), ("rebuild",)],
}
KIND = {"pyomo": ("pyomo", "lp"), "gurobi": ("gurobi", "lp"), "milp": ("pyomo", "milp"), "milpg": ("gurobi", "milp")}


def updated(m, variant):
    da = m.inputs["demand_of"].copy()
    for x, v in zip(TS, VARIANTS[variant]):
        da.loc[{"nodes": "b", "timesteps": np.datetime64(x.replace(" ", "T"))}] = v
    return da


def reference(kind, variant):
    if kind == "milp":
        return {}
    return slopes(("session", variant), lambda: systems.build(load("gurobi", "lp", VARIANTS[variant])))


@contextlib.contextmanager
def caught():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        yield w


def step(state, ev):
    """Applies an event; returns a message if something is wrong."""
    m = state["m"]
    sp = m.backend.shadow_prices
    kind = state["kind"]
    if ev[0] in ("activate", "deactivate"):
        with caught() as w:
            getattr(sp, ev[0])()
        if kind == "milp" and ev[0] == "activate" and state["backend"] == "pyomo" and (sp.is_active or not w):
            return "tracking on an integer problem is activated or not warned about"
        if kind == "lp" and state["backend"] == "pyomo":
            state["manual"] = ev[0] == "activate"
            if sp.is_active != state["manual"]:
                return f"is_active is {sp.is_active} after {ev[0]}"
    elif ev[0] == "update":
        m.backend.update_input("demand_of", updated(m, ev[1]))
        state["variant"] = ev[1]
    elif ev[0] == "rebuild":
        systems.build(m, force=True)
        state.update(variant="v1", manual=False)
    else:
        return solve(state, ev)
    return None


def solve(state, ev):
    m, kind = state["m"], state["kind"]
    _, r, solver = ev
    kw = {"force": True, "solver": solver}
    if r != "keep":
        state["request"] = REQ[r]
        kw["shadow_prices"] = list(REQ[r])
    request = state["request"]
    with caught() as w:
        m.solve(**kw)
    cond = str(m.runtime.termination_condition)
    sp = m.backend.shadow_prices
    avail = {"system_balance", "balance_demand", "nothing", "mine"}
    valid = {c for c in request if c in avail}
    unknown = set(request) - avail
    named = any(all(u in str(x.message) for u in unknown) and "nvalid" in str(x.message) for x in w) if unknown else any("nvalid constraints" in str(x.message) for x in w)
    if bool(unknown) != named:
        return f"unknown names {sorted(unknown)}: warnings are {[str(x.message)[:80] for x in w]}"
    if set(sp.tracked) != valid:
        return f"tracked constraints are {sorted(sp.tracked)}, the valid ones of the request are {sorted(valid)}"
    want = reference(kind, state["variant"])
    got = {str(n)[len("shadow_price_"):]: {i: float(v) for i, v in problem.elements(da).items()} for n, da in m.results.data_vars.items() if str(n).startswith("shadow_price_")}
    if want is None:
        if m.results.data_vars or cond in ("optimal", "feasible"):
            return f"a problem without solution gives {sorted(m.results.data_vars)} ({cond})"
        return stale(state, {}, "after a solve without solution")
    if cond != "optimal":
        return f"the solver ends with {cond}"
    gives = kind == "lp" and solver != "cbc"
    expected = {c for c in valid if gives and want.get(c)}
    if set(got) != expected:
        return f"the results hold prices for {sorted(got)}, requested and available are {sorted(expected)} (solver {solver})"
    for c in expected:
        if bad := wrong_price(want[c], got[c], c):
            return bad
    if kind == "milp" and valid and state["backend"] == "pyomo" and solver != "cbc" and not any("integer" in str(x.message) for x in w):
        return "no warning that an integer problem has no shadow prices"
    active = gives and (state["backend"] == "gurobi" or bool(valid) or state["manual"])
    if state["backend"] == "pyomo" and gives and (valid or state["manual"]):
        state["manual"] = True  # tracking stays on until it is switched off
    if solver == "cbc" and state["backend"] == "pyomo":
        state["manual"] = False if (valid or state["manual"]) else state["manual"]
    return stale(state, want if active else {}, "after the solve")


def stale(state, want, when):
    """Prices read directly belong to this problem (or there are none)."""
    sp = state["m"].backend.shadow_prices
    for c in ("system_balance", "mine") if state["kind"] == "lp" else ("system_balance",):
        got = {i: float(v) for i, v in problem.elements(sp.get(c)).items()}
        if not want and not got:
            continue
        if not want:
            ref = reference(state["kind"], state["variant"]) or {}
            if not ref or wrong_price(ref[c], got, c):
                return f"shadow_prices.get({c}) {when} gives prices of an earlier problem"
            continue
        if bad := wrong_price(want[c], got, f"shadow_prices.get({c}) {when}"):
            return bad
    return None


def start(which):
    backend, kind = KIND[which]
    m = systems.build(load(backend, kind))
    return {"m": m, "kind": kind, "backend": backend, "variant": "v1", "manual": False, "request": ()}


def fork(state, which, history):
    if state["backend"] == "pyomo":
        return {**state, "m": copy.deepcopy(state["m"])}
    new = start(which)
    for ev in history:
        step(new, ev)
    return new


KEEPS = {"pyomo": [("solve", "sb", "glpk"), ("solve", "mine", "gurobi"), ("activate",), ("update", "v2"), ("update", "no")], "gurobi": [("solve", "both", "gurobi"), ("update", "v2")], "milp": [("update", "v2")], "milpg": []}


def histories(case, res):
    _, which, first, depth = case
    first = tuple(first)
    evs = EVENTS[which]

    def go(state, history, left):
        for ev in evs:
            s = fork(state, which, history)
            bad = step(s, ev)
            res.transitions += 1
            res.states += 1
            h = [*history, ev]
            if bad:
                res.fail(f"history:{which}:{ev}:{bad[:60]}", f"{which}: after {' ; '.join(' '.join(e) for e in h)}: {bad}", {"history": h})
                continue
            res.traces += 1
            if left > 1 and (depth > 2 or ev in KEEPS[which]):
                go(s, h, left - 1)

    s = start(which)
    bad = step(s, first)
    if bad:
        return res.fail(f"history:{which}:{first}:{bad[:60]}", f"{which}: {' '.join(first)}: {bad}")
    res.nontrivial += 1
    go(s, [first], depth if depth > 2 else 2 if first in KEEPS[which] else 1)


# --- prices ---------------------------------------------------------------------------------------

SYSTEMS = [[], ["bat"], ["bat_cyclic"], ["conv"], ["chp"], ["dam"], ["pv"], ["wind"], ["ramp", "minrel"], ["export"], ["oneway"], ["link2"], ["two_costs"], ["unmet"], ["sinks"], ["convstore"], ["nodecost"], ["res2h"], ["bat_cyclic_initial"]]


def prices(case, res):
    _, feats, route = case
    backend, solver = route
    m = systems.build(systems.load(feats, backend=backend))
    want = slopes(("system", tuple(feats)), lambda: systems.build(systems.load(feats, backend="gurobi")))
    names = sorted(m.backend.constraints.data_vars)
    if want is None:
        return
    exact = total = 0
    groups = [tuple(names)] + [(n,) for n in names[:: 7]] + [tuple(names[::2])]
    for g in groups:
        with caught():
            m.solve(force=True, solver=solver, shadow_prices=list(g), postprocessing_active=False, zero_threshold=0)
        res.transitions += 1
        got = {str(n)[len("shadow_price_"):]: {i: float(v) for i, v in problem.elements(da).items()} for n, da in m.results.data_vars.items() if str(n).startswith("shadow_price_")}
        expected = {n for n in g if want[n]}
        if set(got) != expected:
            return res.fail(f"prices:{feats}:{route}:names", f"{feats} {route}: requested {len(expected)} constraints, prices for {sorted(set(got) ^ expected)} differ")
        for n in expected:
            if bad := wrong_price(want[n], got[n], n):
                greater = any(">=" in e.expression for e in m.backend.math.constraints[n].equations)
                if backend == "pyomo" and greater and not wrong_price(want[n], {i: -v for i, v in got[n].items()}, n):
                    res.fail("pyomo:sign of >= constraints", f"{feats} {route}: {bad}")
                    continue
                return res.fail(f"prices:{feats}:{route}:{n}", f"{feats} {route}: {bad}")
            da = m.results[f"shadow_price_{n}"]
            if set(da.dims) != set(m.backend.constraints[n].dims):
                return res.fail(f"prices:{feats}:{route}:{n}", f"{n}: dimensions {da.dims}")
            res.states += len(want[n])
            total += len(want[n])
            exact += sum(hi - lo < 1e-6 for lo, hi in want[n].values())
    res.traces += len(groups)
    res.counts["prices compared"] += total
    res.counts["prices with a single possible value"] += exact
    res.nontrivial += exact > 0
    if res.sample is None:
        res.sample = {"system": feats, "route": route, "prices": total, "unique": exact}


# --- modes ----------------------------------------------------------------------------------------

def modes(case, res):
    import calliope

    _, mode, backend, n = case
    solver = "gurobi" if backend == "gurobi" else "glpk"
    ts = [f"2005-01-01 {h:02d}:00" for h in range(n)]
    d = systems.definition([], ts, backend, ())
    d["config"]["init"]["mode"] = mode
    d["config"]["solve"]["postprocessing_active"] = False
    d["data_definitions"]["sink_use_equals"] = {"data": [2 + i % 3 * 1.5 for i in range(n)], "index": [["dem", "b", t] for t in ts], "dims": ["techs", "nodes", "timesteps"]}
    if mode == "operate":
        d["config"]["build"]["operate"] = {"window": "2h", "horizon": "4h"}
        d["techs"]["gen"].update(flow_cap=3, source_cap=3)
        d["techs"]["loc"].update(flow_cap=5, source_cap=5)
        d["techs"]["line"].update(flow_cap=8)
        d["techs"]["dem"].update(flow_cap=9)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_dict(d)
        m.build()
        for i in range(2):
            kw = {"spores": {"number": 2}} if mode == "spores" else {}
            m.solve(force=bool(i), solver=solver, shadow_prices=["system_balance"], **kw)
            res.transitions += 1
            res.states += n
            da = m.results.get("shadow_price_system_balance")
            if da is None:
                return res.fail(f"mode:{mode}:{backend}:{n}", f"solve {i + 1}: no shadow prices in the results ({m.runtime.termination_condition})")
            have = problem.elements(da)
            want = {(("carriers", "e"), ("nodes", x), ("timesteps", problem.item(np.datetime64(t.replace(" ", "T"))))) for x in "ab" for t in ts}
            if mode == "spores":
                want = {tuple(sorted((*w, ("spores", s)))) for w in want for s in range(3)}
                have = {tuple((k, int(v) if k == "spores" else v) for k, v in h): x for h, x in have.items()}
            if set(have) != want:
                return res.fail(f"mode:{mode}:{backend}:{n}", f"solve {i + 1}: prices for {len(have)} of {len(want)} elements, e.g. not for {sorted(want - set(have), key=repr)[:1]}")
            if mode == "operate":
                # 3 from gen at marginal cost 1 reach any demand below 3; the rest comes at 4
                for k, v in have.items():
                    j = dict(k)["timesteps"]
                    dem = 2 + [problem.item(np.datetime64(t.replace(" ", "T"))) for t in ts].index(j) % 3 * 1.5
                    want_v = 1.0 if dem < 3 else 4.0 if dict(k)["nodes"] == "b" else None
                    if want_v is not None and not math.isclose(abs(float(v)), want_v, rel_tol=1e-6):
                        return res.fail(f"mode:{mode}:{backend}:{n}", f"the price of {dict(k)} is {v}, one more unit costs {want_v}")
    res.traces += 1
    res.nontrivial += 1


def cases(tier):
    out = []
    for which, evs in EVENTS.items():
        out += [("history", which, ev, 2 if tier == "quick" or which == "gurobi" else 3) for ev in evs]
    routes = [("pyomo", "glpk"), ("pyomo", "gurobi"), ("gurobi", "gurobi")]
    for i, f in enumerate(SYSTEMS):
        for j, r in enumerate(routes):
            if tier != "quick" or (i + j) % 3 == 0 or (j == 2 and i % 2):
                out.append(("prices", f, r))
    out += [("modes", mode, b, n) for mode in ("operate", "spores") for b in ("pyomo", "gurobi") for n in ((4, 5, 6) if mode == "operate" else (2,))]
    return out


def run_case(case, res):
    res.outcome(case[:3])
    {"history": histories, "prices": prices, "modes": modes}[case[0]](case, res)
