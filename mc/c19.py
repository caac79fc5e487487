"""C19: reported results follow from the solution.

The solver is part of the environment: a stand-in registered with the solver interface answers each solve with the next
vector of an enumeration (products over a small alphabet around the zero threshold for groups of variables, every variable
alone over the whole alphabet), under every threshold and post-processing setting.  After each solve the reported dataset
is compared in full with a reference in plain Python: the vector itself, the value of every built expression on it (own
evaluation of the linear forms), the documented formula of every derived indicator, and the threshold applied to all of them.
A second family runs the real solvers in all modes and recomputes the indicators from the reported values.
"""
from __future__ import annotations

import itertools
import math
import warnings

import numpy as np
import pandas as pd

from mc import fast, plans, problem, systems
from mc.c18 import sys_
from mc.plans import C, K, T

fast.memo_grammars()

PROPERTY, LEVEL = "C19", "model_checking"
ASSUMPTIONS = ["indicators are computed on the solver's values, then the threshold is applied to everything, as documented",
               "curtailment is undefined (no value) where nothing could have been generated"]
BOUNDS = {"quick": "9 systems; every variable alone over 8 values, 4 to 6 groups of up to 4 variables over 3 to 5 values, 4 thresholds, both post-processing settings, 6 solver conditions; real runs in 3 modes and both interfaces",
          "thorough": "the same with groups of up to 6 variables"}
CASE_TIMEOUT = 600
THR = 1e-10
NEAR = [0.0, 1e-11, -1e-11, 9.9e-11, 1e-10, -1e-10, 1.0, -2.0]


# --- systems --------------------------------------------------------------------------------------

def cost(**kw):
    return {f"cost_{k}": K(monetary=v, co2=v / 4) if v > 1 else K(monetary=v) for k, v in kw.items()}


def table(name):
    """(system, groups of variables to enumerate: (selector, alphabet))."""
    dem = {"base_tech": "demand", "carrier_in": "e"}
    two = {"a": {"s": None, "dem": None}, "b": {"s": None, "r": None}}
    if name == "supply":
        t = {"s": {"base_tech": "supply", "carrier_out": "e", "source_use_max": T([2, 3]), **cost(flow_out=2, flow_cap=3), "lifetime": 10}, "r": {"base_tech": "supply", "carrier_out": "e", **cost(flow_out=1)}, "dem": dem}
        return sys_(t, "2", two), [(("flow_out", "s"), [0, 1e-11, 2]), (("flow_cap", "s"), NEAR), (("source_use", "s"), [0, 1e-11, 1.5]), (("source_cap", "s"), [0, 1e-11, 1, -1e-11]), (("flow_out", "r"), [0, 1e-12, 4])]
    if name == "scaled":
        t = {"s": {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_area", "source_use_max": T([2, 0]), "area_use_max": 9, **cost(flow_out=3)},
             "r": {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_cap", "source_use_max": T([0.5, 0.25])}, "z": {"base_tech": "supply", "carrier_out": "e", "source_use_max": T([0, 0])},
             "i": {"base_tech": "supply", "carrier_out": "e", "source_use_max": math.inf}, "dem": dem}
        return sys_(t, "m2", {"a": {x: None for x in t}}) | {"ts": plans.stamps([0, 2])}, [
            (("area_use", "s"), [0, 1, 2, 1e-11]), (("source_use", "s"), [0, 1, 4]), (("flow_cap", "r"), [0, 1, 2]), (("source_use", "r"), [0, 0.5, 1]), (("source_cap", None), [0, 1, 1e-12]), (("source_use", "z"), [0, 1])]
    if name == "storage":
        t = {"st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", **cost(storage_cap=2, flow_out=1, flow_in=5), "lifetime": 5}, "li": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", **cost(flow_cap=2, flow_out=2), "lifetime": 5},
             "s": {"base_tech": "supply", "carrier_out": "e"}, "dem": dem}
        return sys_(t, "2", {"a": {"s": None, "st": None}, "b": {"dem": None}}), [(("flow_out", "st"), [0, 1e-11, 2, 1]), (("flow_in", "st"), [0, 1e-11, 2]), (("storage", "st"), NEAR), (("flow_out", "li"), [0, 1e-11, 2]), (("flow_cap", "li"), [0, 1, 1e-11])]
    if name == "conversion":
        t = {"cv": {"base_tech": "conversion", "carrier_in": "g", "carrier_out": ["e", "h"], "cost_flow_out": C(e=1.0), "flow_out_eff": C(e=0.5, h=0.25)}, "g": {"base_tech": "supply", "carrier_out": "g", **cost(source_use=2)}, "dem": dem, "demh": {"base_tech": "demand", "carrier_in": "h", **cost(flow_in=2)}}
        t["cv"].pop("cost_flow_out")
        t["cv"] |= cost(flow_out=2, flow_cap=4) | {"lifetime": 4}
        return sys_(t, "2"), [(("flow_out", "cv"), [0, 1e-11, 2]), (("flow_cap", "cv"), [0, 1, 1e-11]), (("flow_in", "cv"), [0, 3]), (("flow_out", "g"), NEAR)]
    if name == "export":
        t = {"s": {"base_tech": "supply", "carrier_out": "e", "carrier_export": "e", "cost_export": K(monetary=-1), **cost(flow_out=2)}, "r": {"base_tech": "supply", "carrier_out": "e", "source_use_max": 2}, "dem": dem}
        return sys_(t, "2", two), [(("flow_export", "s"), [0, 1e-11, 1]), (("flow_out", "s"), [0, 1, 2]), (("flow_export", "s", "a"), NEAR), (("flow_out", "r"), NEAR)]
    if name == "unmet":
        t = {"s": {"base_tech": "supply", "carrier_out": "e", **cost(flow_out=2)}, "h": {"base_tech": "supply", "carrier_out": "h"}, "demh": {"base_tech": "demand", "carrier_in": "h"}, "dem": dem}
        return sys_(t, "2", {"a": {"s": None, "dem": None}, "b": {"h": None, "demh": None}}, build={"ensure_feasibility": True}, params={"bigM": 10}), [(("unmet_demand", None, "a"), [0, 1e-11, 2]), (("unused_supply", None, "a"), [0, -1e-11, -2]), (("unmet_demand", None, "b"), NEAR[:5])]
    if name == "weights":  # six steps in three days, two of which the first represents
        t = {"s": {"base_tech": "supply", "carrier_out": "e", "carrier_export": "e", "cost_export": K(monetary=-1), "source_use_max": T([2, 3, 9, 9, 1, 4]), **cost(flow_out=2, flow_cap=3), "lifetime": 10},
             "r": {"base_tech": "supply", "carrier_out": "e", "source_unit": "per_cap", "source_use_max": T([0.5, 1, 0.1, 0.1, 0.25, 1])}, "dem": dem}
        return sys_(t, "2", two) | {"ts": plans.stamps([0, 12, 24, 36, 48, 60]), "cluster": [0, 0, 2]}, [
            (("flow_out", "s", "a"), [0, 1, 2]), (("flow_export", "s", "a"), [0, 1, 0.5]), (("source_use", "s", "a"), [0, 1, 2]), (("source_use", "r"), [0, 1, 0.5]), (("flow_cap", "s"), [0, 1, 2]), (("flow_out", "r"), [0, 1])]
    if name == "parasitic":
        t = {"s": {"base_tech": "supply", "carrier_out": "e", "flow_out_parasitic_eff": 0.5, "flow_out_eff": 0.5, "include_storage": True, "source_use_max": 3, **cost(source_cap=2), "lifetime": 3}, "u": {"base_tech": "supply", "carrier_out": ["e", "h"], "source_use_min": 1, "source_use_max": 2}, "dem": dem, "demh": {"base_tech": "demand", "carrier_in": "h"}}
        return sys_(t, "m2"), [(("flow_out", "s"), [0, 1, 2]), (("flow_out", "u"), [0, 1]), (("flow_cap", "u"), [0, 1, 1e-11]), (("source_use", "u"), [0, 1])]
    if name == "none":  # no costs, no production
        return sys_({"dem": dem, "st": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e"}}, "1"), [(("flow_in", "dem"), NEAR), (("flow_out", "st"), [0, 1, 1e-11]), (("flow_cap", "st"), [0, 1, -1])]


SYSTEMS = ["supply", "scaled", "storage", "conversion", "export", "unmet", "weights", "parasitic", "none"]


def load(s, backend="pyomo", **kw):
    if "cluster" in s:
        reps = s["cluster"]
        days = sorted({t[:10] for t in s["ts"]})
        df = pd.DataFrame({"datesteps": days, "reps": [days[i] for i in reps]}).set_index("datesteps")
        d = plans.definition(s, backend)
        d["config"]["init"]["time_cluster"] = "reps"
        d["data_tables"] = {"reps": {"table": "reps", "rows": "datesteps", "columns": "inputs"}}
        df.columns = pd.Index(["reps"], name="inputs")
        import calliope
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return calliope.read_dict(d, data_table_dfs={"reps": df}, **kw)
    return plans.load(s, backend, **kw)


def view(s):
    """Steps, durations, weights and the positions of the kept steps in the original series."""
    S = plans.System(s)
    n = range(len(S.ts))
    if "cluster" not in s:
        return S, list(n), S.res, [1.0] * len(S.ts)
    days = sorted({t[:10] for t in S.ts})
    reps = s["cluster"]
    keep = [i for i in n if days.index(S.ts[i][:10]) in reps]
    return S, keep, [S.res[i] for i in keep], [float(reps.count(days.index(S.ts[i][:10]))) for i in keep]


# --- reference ------------------------------------------------------------------------------------

def expressions(backend):
    """Linear form of every built expression and objective, by element."""
    from pyomo.repn.standard_repn import generate_standard_repn

    names = {id(v): (n, idx) for n, da in backend.variables.data_vars.items() for idx, v in problem.elements(da).items()}

    def form(e):
        e = getattr(e, "expr", e)
        if isinstance(e, (int, float, np.number)):
            return {}, float(e)
        r = generate_standard_repn(e, compute_values=True)
        assert r.nonlinear_expr is None
        out = {}
        for v, c in zip(r.linear_vars, r.linear_coefs):
            out[names[id(v)]] = out.get(names[id(v)], 0.0) + c
        return out, float(r.constant)

    out = {}
    for n, da in backend.global_expressions.data_vars.items():
        out[n] = {idx: form(e) for idx, e in problem.elements(da).items()}
    for n, da in backend.objectives.data_vars.items():
        out[n] = {(): form(da.item())}
    return out


def indicators(s, got, feasibility=False):
    """Documented formulas of the derived indicators on {(name, idx): value}."""
    S, keep, res, w = view(s)
    ts = [S.ts[i] for i in keep]
    val = {}
    for (name, idx), v in got.items():
        val.setdefault(name, {})[idx] = v
    x = lambda n, d=0.0, **kw: val.get(n, {}).get(tuple(sorted(kw.items())), d)  # noqa: E731
    has = lambda n, **kw: tuple(sorted(kw.items())) in val.get(n, {})  # noqa: E731
    where = [(n, t) for t in s["techs"] for n in plans.ends(s, t)]
    techs = s["techs"]
    couts = {t: plans.carriers(p.get("carrier_out")) for t, p in techs.items()}
    out, vague = {}, set()

    def tot(terms):
        """Sum, noting when so much cancels that floating-point sums in another order may differ."""
        terms = list(terms)
        v = sum(terms)
        if terms and abs(v) < 1e-5 * max(abs(u) for u in terms) and any(terms) and (v or any(abs(u) > 1e-13 for u in terms)):
            unsure.append(v)
        return v

    unsure = []

    def put(name, v, **idx):
        k = name, tuple(sorted(idx.items()))
        if unsure:
            vague.add(k)
            unsure.clear()
        if v is not None and not math.isnan(v):
            out[k] = v

    div = lambda a, b: a / b if b else math.copysign(math.inf, a) if a else math.nan  # noqa: E731
    hours = sum(a * b for a, b in zip(res, w))
    for t in techs:
        nodes = [n for n, u in where if u == t]
        for c in couts[t]:
            for n in nodes:
                for i, h in zip(ts, res):
                    if has("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) and x("flow_cap", nodes=n, techs=t, carriers=c) > 0:
                        put("capacity_factor", x("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) / (x("flow_cap", nodes=n, techs=t, carriers=c) * h), nodes=n, techs=t, carriers=c, timesteps=i)
            if any(x("flow_cap", nodes=n, techs=t, carriers=c) > 0 and any(has("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) for i in ts) for n in nodes):
                flow = tot(k * x("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) for n in nodes for i, k in zip(ts, w))
                put("systemwide_capacity_factor", div(flow, tot(x("flow_cap", nodes=n, techs=t, carriers=c) for n in nodes) * hours), techs=t, carriers=c)
            if any(has("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) for n in nodes for i in ts):
                put("total_generation", tot(k * (x("flow_out", nodes=n, techs=t, carriers=c, timesteps=i) + x("flow_export", nodes=n, techs=t, carriers=c, timesteps=i)) for n in nodes for i, k in zip(ts, w)), techs=t, carriers=c)
    gen = {idx: v for (n, idx), v in out.items() if n == "total_generation"}
    classes = sorted({dict(i)["costs"] for i in val.get("cost", {})})
    for idx, g in gen.items():
        for k in classes:
            if ("total_generation", idx) in vague:
                vague.add(("systemwide_levelised_cost", tuple(sorted({"costs": k, **dict(idx)}.items()))))
            if g > 0 and any(has("cost", nodes=n, techs=dict(idx)["techs"], costs=k) for n in s["nodes"]):
                put("systemwide_levelised_cost", tot(x("cost", nodes=n, techs=dict(idx)["techs"], costs=k) for n in s["nodes"]) / g, costs=k, **dict(idx))
    for c in sorted({dict(i)["carriers"] for i in gen}):
        g = tot(v for i, v in gen.items() if dict(i)["carriers"] == c)
        doubt = bool(unsure) or any(("total_generation", i) in vague for i in gen)
        unsure.clear()
        for k in classes:
            if doubt:
                vague.add(("total_levelised_cost", tuple(sorted({"carriers": c, "costs": k}.items()))))
            if g > 0:
                put("total_levelised_cost", tot(v for i, v in val.get("cost", {}).items() if dict(i)["costs"] == k) / g, carriers=c, costs=k)
    if feasibility:
        cs = sorted({c for p in techs.values() for f in ("carrier_in", "carrier_out") for c in plans.carriers(p.get(f))})
        at = {(n, c) for n, t in where for f in ("carrier_in", "carrier_out") for c in plans.carriers(techs[t].get(f))}
        for n, c, i in itertools.product(s["nodes"], cs, ts):
            if (n, c) not in at:
                continue
            put("unmet_sum", x("unmet_demand", nodes=n, carriers=c, timesteps=i) + x("unused_supply", nodes=n, carriers=c, timesteps=i), nodes=n, carriers=c, timesteps=i)
    for n, t in where:
        if techs[t]["base_tech"] != "supply" or not x("source_cap", nodes=n, techs=t) > 0:
            continue
        unit = S.get(n, t, "source_unit", "absolute")
        scale = x("area_use", nodes=n, techs=t) if unit == "per_area" else sum(x("flow_cap", nodes=n, techs=t, carriers=c) for c in couts[t]) if unit == "per_cap" else 1.0
        have = [S.get(n, t, "source_use_max", None, t=i) for i in keep]
        if scale <= 0:
            continue
        for i, m in zip(ts, have):
            if m is not None and 0 < m < math.inf:
                put("curtailment", 1 - div(x("source_use", nodes=n, techs=t, timesteps=i), m * scale), nodes=n, techs=t, timesteps=i)
        if any(m is not None and m < math.inf for m in have) and sum(m for m in have if m is not None) > 0:
            used = tot(k * x("source_use", nodes=n, techs=t, timesteps=i) for i, k in zip(ts, w))
            could = tot(k * m * scale for m, k in zip(have, w) if m is not None)
            put("total_curtailment", 1 - div(used, could), nodes=n, techs=t)
    return out, vague


def reference(s, vec, forms, post):
    raw = dict(vec)
    for name, els in forms.items():
        for idx, (lin, const) in els.items():
            raw[name, idx] = const + sum(c * vec[k] for k, c in lin.items())
    vague = set()
    if post:
        more, vague = indicators(s, raw, bool(s.get("build", {}).get("ensure_feasibility")))
        raw |= more
    return raw, vague


def check(res, m, raw, exact, thr, what, indexes):
    got, sizes = {}, {}
    for name, da in m.results.data_vars.items():
        sizes[str(name)] = dict(da.sizes)
        for idx, v in problem.elements(da).items():
            got[str(name), idx] = float(v)
    raw, vague = raw
    want, loose = {}, set()
    raw = {k: v for k, v in raw.items() if k not in vague}
    got = {k: v for k, v in got.items() if k not in vague}
    res.counts["indicators left out because of cancellation"] += len(vague)
    for k, v in raw.items():
        if thr and k not in exact and abs(abs(v) - thr) <= 1e-7 * thr:
            loose.add(k)
        want[k] = 0.0 if thr and abs(v) < thr else v
    absent, extra = sorted(set(want) - set(got), key=repr), sorted(set(got) - set(want), key=repr)
    if absent:
        return res.fail(f"absent:{absent[0][0]}", f"{what}: {len(absent)} values are not reported, e.g. {absent[0]} = {want[absent[0]]:.6g}")
    if extra:
        return res.fail(f"extra:{extra[0][0]}", f"{what}: {len(extra)} values are reported that do not exist, e.g. {extra[0]} = {got[extra[0]]:.6g}")
    for k, v in want.items():
        g = got[k]
        ok = g == v if k in exact else (k in loose or g == v or abs(g - v) <= 1e-9 * max(1e-3, abs(v), abs(g)) and not (v == 0 or g == 0) or abs(g - v) < 1e-17)
        if not ok:
            return res.fail(f"value:{k[0]}", f"{what}: {k[0]}[{', '.join(f'{a}={b}' for a, b in k[1])}] is reported as {g!r}, the solution gives {v!r}")
    for name, size in indexes.items():
        if name in sizes and sizes[name] != size:
            return res.fail(f"index:{name}", f"{what}: {name} is reported on {sizes[name]}, built on {size}")
    return None


# --- stand-in -------------------------------------------------------------------------------------

class Script:
    """Solver that answers with the vector put into `vec`."""

    vec: dict = {}
    objs: dict = {}
    cond = "optimal"
    calls = 0

    def __init__(self, **kw):
        self.options = {}
        self.name = "mc_scripted"

    def available(self, exception_flag=False):
        return True

    def solve(self, model, **kw):
        from pyomo.core.base.symbol_map import SymbolMap
        from pyomo.opt import Solution, SolverResults, TerminationCondition

        r = SolverResults()
        r.solver.termination_condition = TerminationCondition(self.cond)
        sol, sm = Solution(), SymbolMap()
        for i, (k, v) in enumerate(Script.vec.items()):
            label = f"x{i}"
            sm.addSymbol(Script.objs[k], label)
            sol.variable[label] = {"Value": v}
        sol.symbol_map = sm
        r.solution.insert(sol)
        Script.calls += 1
        return r


def register():
    from pyomo.opt import SolverFactory

    SolverFactory.unregister("mc_scripted") if "mc_scripted" in SolverFactory else None
    SolverFactory.register("mc_scripted", doc="scripted answers")(Script)


def prepare(s):
    m = systems.build(load(s))
    register()
    Script.objs = {(n, idx): v for n, da in m.backend.variables.data_vars.items() for idx, v in problem.elements(da).items()}
    forms = expressions(m.backend)
    indexes = {n: dict(da.sizes) for n, da in [*m.backend.variables.data_vars.items(), *m.backend.global_expressions.data_vars.items()]}
    keys = sorted(Script.objs, key=repr)
    base = {k: [1.0, 2.0, 0.5, 3.0][i % 4] for i, k in enumerate(keys)}
    for k in keys:
        if k[0] == "unused_supply":
            base[k] = -base[k]
    return m, forms, indexes, base


def run_vector(res, s, m, forms, indexes, vec, what, thr=THR, post=True, cond="optimal"):
    Script.vec, Script.cond = vec, cond
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            m.solve(force=True, solver="mc_scripted", zero_threshold=thr, postprocessing_active=post)
    res.transitions += 1
    raw = reference(s, vec, forms, post)
    return check(res, m, raw, set(vec), thr, what, indexes)


def members(base, sel):
    name, tech, node = [*sel, None, None][:3]
    out = []
    for k in base:
        d = dict(k[1])
        if k[0] == name and (tech is None or d.get("techs") == tech) and (node is None or d.get("nodes") == node):
            out.append(k)
    return out


def brief(vec, keys):
    return ", ".join(f"{k[0]}[{','.join(str(v)[-5:] if n == 'timesteps' else str(v) for n, v in k[1])}]={vec[k]:g}" for k in keys)


def cases(tier):
    out = []
    for name in SYSTEMS:
        n = len(table(name)[1])
        out.append(("alone", name, tier))
        out += [("group", name, g, tier) for g in range(n)]
        out += [("pair", name, g, h, tier) for g, h in itertools.combinations(range(n), 2) if tier != "quick" or h == g + 1 or (g + h) % 3 == 0]
        out.append(("settings", name))
        for mode in ("base", "operate", "spores"):
            for b in ("pyomo", "gurobi"):
                if mode == "base" or name not in ("weights", "none", "unmet"):
                    out.append(("real", name, mode, b))
    return out


def run_case(case, res):
    kind, name = case[:2]
    s, groups = table(name)
    if kind == "real":
        return real(case, res, s)
    m, forms, indexes, base = prepare(s)
    seen = set()

    def go(vec, keys, **kw):
        res.states += 1
        key = tuple(vec[k] for k in sorted(vec, key=repr)) + tuple(kw.items())
        if key in seen:
            return None
        seen.add(key)
        return run_vector(res, s, m, forms, indexes, vec, f"{name}: {brief(vec, keys)} {kw or ''}", **kw)

    if kind == "alone":
        if case[2] == "quick":  # every variable takes every value, several at once
            for mult, v in itertools.product((1, 3, 5), range(len(NEAR))):
                go({k: NEAR[(i * mult + v) % len(NEAR)] for i, k in enumerate(base)}, list(base)[:3])
        else:
            for k in base:
                for v in NEAR:
                    go(base | {k: v}, [k])
    elif kind == "group":
        g, tier = case[2:]
        sel, alpha = groups[g]
        ks = members(base, sel)[:4 if tier == "quick" else 6]
        while len(alpha) ** len(ks) > (16 if tier == "quick" else 250):
            ks = ks[:-1]
        for vs in itertools.product(alpha, repeat=len(ks)):
            go(base | dict(zip(ks, vs)), ks)
    elif kind == "pair":
        g, h, tier = case[2:]
        (sa, aa), (sb, ab) = groups[g], groups[h]
        n = 2 if tier == "quick" else 3
        ka, kb = members(base, sa)[:n], [k for k in members(base, sb) if k not in members(base, sa)[:n]][:n]
        while len(aa) ** len(ka) * len(ab) ** len(kb) > (9 if tier == "quick" else 150):
            if len(ka) >= len(kb):
                ka = ka[:-1]
            else:
                kb = kb[:-1]
        for va in itertools.product(aa, repeat=len(ka)):
            for vb in itertools.product(ab, repeat=len(kb)):
                go(base | dict(zip(ka, va)) | dict(zip(kb, vb)), ka + kb)
    elif kind == "settings":
        ks = [members(base, g[0])[0] for g in groups[:3]]
        small = base | {k: v for k, v in zip(ks, (1e-11, 0.6, -0.6))}
        for thr, post in itertools.product((0, 1e-10, 0.7, 1e-12), (True, False)):
            for vec in (base, small):
                go(vec, ks, thr=thr, post=post)
        for cond in ("optimal", "feasible", "locallyOptimal", "globallyOptimal", "maxTimeLimit", "maxIterations"):
            Script.vec, Script.cond = small, cond
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    m.solve(force=True, solver="mc_scripted", zero_threshold=THR, postprocessing_active=True)
            if m.results.data_vars:  # values are reported: they are subject to the threshold
                check(res, m, reference(s, small, forms, True), set(small), THR, f"{name}: solver condition {cond}", indexes)
            elif cond in ("optimal", "feasible"):
                res.fail(f"condition:{cond}", f"{name}: no results after the solver condition {cond}")
            if str(m.runtime.termination_condition) != cond:
                res.fail(f"condition:{cond}", f"{name}: solver condition {cond} is reported as {m.runtime.termination_condition}")
    res.traces += len(seen)
    res.outcome(case)
    if len(seen) > 1:
        res.nontrivial += 1
    if res.sample is None:
        res.sample = {"system": name, "enumeration": kind, "vectors": len(seen), "variables": len(base), "expressions": sum(map(len, forms.values()))}


CAPS = {"flow_cap": 4, "storage_cap": 4, "source_cap": 4, "area_use": 4}


def real(case, res, s):
    """The indicators against the values reported with them, with the real solvers in every mode."""
    _, name, mode, backend = case
    s = {**s, "techs": {t: {**p, "flow_cap_max": 5} | ({"cyclic_storage": False} if p.get("base_tech") == "storage" or p.get("include_storage") else {}) for t, p in s["techs"].items()}, "init": {"mode": mode}}
    n = len(s["ts"])
    for t in ("dem", "demh"):
        if t in s["techs"]:
            s["techs"][t]["sink_use_max"] = T([0.5, 0.25, 0.5, 0.25, 0.5, 0.25][:n])
            s["techs"][t]["cost_flow_in"] = K(monetary=-10)
    for p in s["techs"].values():
        p.pop("source_use_min", None)
    if mode == "operate":
        s["init"] |= {"mode": "operate"}
        s["build"] = {**s.get("build", {}), "operate": {"window": "2h", "horizon": "2h"}}
        for t, p in s["techs"].items():
            p |= {"flow_cap": 2, "source_cap": 2, "storage_cap": 3, "area_use": 1}
            p["storage_initial"] = 0.5
            for k in ("source_cap", "storage_cap", "storage_initial", "area_use"):
                if (k == "source_cap" and p["base_tech"] != "supply") or (k.startswith("storage") and p["base_tech"] != "storage" and not p.get("include_storage")) or (k == "area_use" and "area_use_max" not in p):
                    p.pop(k)
    try:
        m = load(s, backend)
        systems.build(m)
    except Exception as e:  # noqa: BLE001
        return res.fail(f"real:{name}:{mode}:{backend}", f"{type(e).__name__}: {str(e)[:300]}")
    kw = {"solver": "cbc" if backend == "pyomo" else "gurobi"}
    if mode == "spores":
        kw["spores"] = {"number": 2}
    with np.errstate(all="ignore"):
        systems.solve(m, **kw)
    sets = [None] if "spores" not in m.results.dims else list(m.results.spores.values)
    names = {"capacity_factor", "systemwide_capacity_factor", "total_generation", "systemwide_levelised_cost", "total_levelised_cost", "unmet_sum", "curtailment", "total_curtailment"}
    if not m.results.data_vars:
        return res.fail(f"real:{name}:{mode}:{backend}", f"no results ({m.runtime.termination_condition})")
    for sp in sets:
        ds = m.results if sp is None else m.results.sel(spores=sp, drop=True)
        got = {(str(n_), idx): float(v) for n_, da in ds.data_vars.items() for idx, v in problem.elements(da).items()}
        vals = {k: v for k, v in got.items() if k[0] not in names}
        if mode == "operate":
            for par in CAPS:
                if par in m.inputs and par not in ds:
                    given = {frozenset(idx): float(v) for idx, v in problem.elements(m.inputs[par]).items()}
                    for t, p in s["techs"].items():
                        for node in plans.ends(s, t):
                            for c in set(plans.carriers(p.get("carrier_in")) + plans.carriers(p.get("carrier_out"))) if par == "flow_cap" else [None]:
                                idx = {"nodes": node, "techs": t} | ({"carriers": c} if c else {})
                                for g, v in given.items():
                                    if g <= set(idx.items()):
                                        vals[par, tuple(sorted(idx.items()))] = v
        if mode == "operate":
            for n_ in sorted(names & set(map(str, ds.data_vars))):
                if "timesteps" in ds[n_].dims and n_ not in ("capacity_factor", "curtailment", "unmet_sum"):
                    res.fail("operate:indicators of one window", f"{name}: {n_} is reported for every step of the window instead of once")
                    names = names - {n_}
            if "cost" in ds and "timesteps" in ds["cost"].dims:
                names = names - {"systemwide_levelised_cost", "total_levelised_cost"}
        want, _ = indicators(s, vals, bool(s.get("build", {}).get("ensure_feasibility")))
        want = {k: v for k, v in want.items() if k[0] in names}
        mine = {k: v for k, v in got.items() if k[0] in names}
        res.states += 1
        res.transitions += len(mine)
        for k in sorted(set(want) | set(mine), key=repr):
            a, b = want.get(k), mine.get(k)
            if a is None or b is None or not (abs(a - b) <= 1e-6 * max(1, abs(a))):
                res.fail(f"real:{name}:{mode}:{backend}:{k[0]}", f"{k} is reported as {b}, its formula on the reported values gives {a} (spore {sp})")
                break
    res.traces += 1
    res.nontrivial += 1
    res.outcome(case)
