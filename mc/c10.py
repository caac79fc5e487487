"""C10: both solver interfaces build the same problem.

sys      energy systems with the shipped math: each feature alone, each left out of the full system, pairs (thorough)
example  the example models with their scenarios, periods and modes
adds     one problem of the small math; every component of an enumerated list is added through both interfaces:
         constraints (left side x operator x right side x where), variables (domain x bounds x index x where),
         global expressions, objectives, piecewise constraints.  Each is accepted by both or refused by both, and the
         whole problem is compared element by element after each batch.
Compared: variables with bounds and domain, constraints (normalised rows), piecewise constraints, active objective,
inputs and exposed parameter/lookup arrays, the index, attributes and references of every component,
reported bounds, and after solving the status, objective and every result of a unique optimum.
"""
from __future__ import annotations

import itertools
import math
import warnings

import numpy as np
import xarray as xr

from mc import c09, problem, systems, tiny

PROPERTY, LEVEL = "C10", "exploration"
RULE = ("A case is one problem assembled through both interfaces (a set of features, an example model variant, or a batch of single components); an evaluation is one compared component; "
        "a case is non-trivial when both interfaces built at least one object for it.")
ASSUMPTIONS = ["piecewise constraints over expressions are documented as unavailable on the Gurobi interface",
               "fixed variables are compared by the values they are fixed to"]
BOUNDS = {
    "quick": "each of 26 system features alone, the full system, the full system less each of 13 pairs of features; 8 example variants; all constraint/variable/expression/objective/piecewise forms of the lists in mc/c10.py",
    "thorough": "as quick plus the full system less each single feature, every pair of features, the full system less every pair",
}
CASE_TIMEOUT = 300
MATH = str(tiny.pathlib.Path(__file__).parent / "data" / "c10" / "base.yaml")


# -- component lists -----------------------------------------------------------------------------------------------
SIDES = ["v0", "vn", "vnt", "0", "3", "p0", "pnd", "pz", "pt", "pntd", "-vn", "vn * pnd", "vn - pnd", "pnd * (vn - v0) / 2", "(v0 + 1) ** 2", "sum(vnt, over=techs)", "vn * 0", "vn - vn",
         "pnd ** p0 + v0", "roll(vts, timesteps=1)", "vn * vn", "default_if_empty(vnt, 0) + 1"]
OPS = ["<=", ">=", "=="]
WHERES = [None, "pn", "pnd>3"]


def constraint_specs():
    for (i, a), (j, b) in itertools.product(enumerate(SIDES), enumerate(SIDES)):
        if i == j:
            continue
        fe = ["nodes"]
        for s in (a, b):
            if "vnt" in s and "sum" not in s or s in ("pt", "pntd"):
                fe = ["nodes", "techs"]
        if "vts" in a + b:
            fe = fe + ["timesteps"]
        for op in OPS:
            yield {"foreach": fe, "where": "vnt" if "techs" in fe else "True", "equations": [{"expression": f"{a} {op} {b}"}]}


def variable_specs():
    bounds = [0, -math.inf, math.inf, 2.5, "p0", "pnd", "pn", "pt", "pmiss"]
    for dom, lo, hi in itertools.product(["real", "integer"], bounds, bounds):
        fe = ["nodes", "techs"] if "pt" in (lo, hi) else ["nodes"]
        yield {"foreach": fe, "domain": dom, "bounds": {"min": lo, "max": hi}}
    for fe, wh in itertools.product([[], ["nodes"], ["timesteps"], ["nodes", "techs"], ["nodes", "techs", "carriers", "timesteps"]], ["True", "pnt", "pn>0", "pmissnan", "lb"]):
        yield {"foreach": fe, "where": wh, "bounds": {"min": 0, "max": 4}}


def expression_specs():
    for s in [*SIDES, "pzz * v0 + vn"]:
        fe = ["nodes", "techs"] if ("vnt" in s and "sum" not in s) or s in ("pt", "pntd") else ["nodes"]
        if "vts" in s:
            fe = fe + ["timesteps"]
        for wh in ("True", "pn"):
            yield {"foreach": fe, "where": wh, "equations": [{"expression": s}]}


def objective_specs():
    for sense in ("minimise", "maximise"):
        for e in ("v0", "sum(vn, over=nodes) * pz + 3", "sum(vnt * pntd, over=[nodes, techs])", "v0 * v0 + v0", "sum((vn - pnd) ** 2, over=nodes)", "5", "p0", "sum(g9, over=nodes)", "vn", "v0 * p0 - sum(vts * pts, over=timesteps)"):
            yield {"sense": sense, "equations": [{"expression": e}]}


def piecewise_specs():
    for x, y in itertools.permutations(["v0", "vn", "vnt"], 2):
        fe = ["nodes", "techs"] if "vnt" in (x, y) else ["nodes"]
        for xv, yv in (("px", "py"), ("py", "px"), ("px", "px"), ("px3", "py"), ("px", "pyn"), ("px", "py2"), ("p0", "py")):
            yield {"foreach": fe, "where": "vnt" if "vnt" in (x, y) else "vn", "x_expression": x, "y_expression": y, "x_values": xv, "y_values": yv}


GROUPS = {"constraints": constraint_specs, "variables": variable_specs, "global_expressions": expression_specs, "objectives": objective_specs, "piecewise_constraints": piecewise_specs}
BATCH = {"constraints": 60, "variables": 60, "global_expressions": 50, "objectives": 30, "piecewise_constraints": 40}

EXAMPLES = {
    "national": ("national_scale", {}, ["2005-01-01", "2005-01-01"]),
    "national_spores": ("national_scale", {"scenario": "spores"}, ["2005-01-01", "2005-01-01"]),
    "national_operate": ("national_scale", {"scenario": "operate"}, ["2005-01-01", "2005-01-01"]),
    "national_res": ("national_scale", {"override_dict": {"config.init.resample": {"timesteps": "6h"}}}, ["2005-01-01", "2005-01-02"]),
    "urban": ("urban_scale", {}, ["2005-07-01", "2005-07-01"]),
    "milp": ("milp", {}, ["2005-01-01", "2005-01-01"]),
    "clustering": ("time_clustering", {"override_dict": {"config.init.extra_math": ["storage_inter_cluster"]}}, None),
    "operate": ("operate", {}, ["2005-01-01", "2005-01-02"]),
}


def cases(tier):
    names = list(systems.F)
    yield ("sys", [], True)
    for f in names:
        yield ("sys", [f], True)
    yield ("sys", names, False)
    for i in range(0, len(names), 2 if tier == "quick" else 1):
        out = names[i:i + 2] if tier == "quick" else [names[i]]
        yield ("sys", [g for g in names if g not in out], False)
    for e in EXAMPLES:
        yield ("example", e)
    for g, gen in GROUPS.items():
        n = len(list(gen()))
        for i in range(0, n, BATCH[g]):
            yield ("adds", g, i)
    if tier == "thorough":
        for p in itertools.combinations(names, 2):
            yield ("sys", list(p), True)
        for p in itertools.combinations(names, 2):
            yield ("sys", [g for g in names if g not in p], False)


# -- comparison ----------------------------------------------------------------------------------------------------
def attrs_of(b):
    out = {}
    there = {n for g in ("variables", "constraints", "global_expressions", "objectives", "piecewise_constraints") for n in getattr(b, g).data_vars}
    for group in ("variables", "constraints", "global_expressions", "parameters", "lookups", "objectives", "piecewise_constraints"):
        for name, da in getattr(b, group).data_vars.items():
            at = {k: v for k, v in da.attrs.items() if k not in ("original_dtype", "references", "coords_in_name")}
            out[(group, name)] = (tuple(sorted(da.dims)), tuple(sorted(set(da.attrs.get("references", ())) & there)), repr(sorted(at.items(), key=str)),
                                  int(da.notnull().sum()))
    return out


def same_dict(x, y):
    if x == y:
        return None
    for k in sorted(set(x) | set(y), key=repr):
        if x.get(k) != y.get(k):
            return f"{k}: {x.get(k)} != {y.get(k)}"


def compare(a, b, res, key, with_attrs=True):
    """a: Pyomo model, b: Gurobi model."""
    pa, pb = problem.extract(a.backend), problem.extract(b.backend)
    n = len(pa["variables"]) + len(pa["constraints"])
    res.evaluations += n
    res.nontrivial += bool(n)
    res.outcome((len(pa["variables"]), len(pa["constraints"]), repr(pa["objective"])[:300]))
    if d := problem.diff(pa, pb):
        res.fail(f"{key}:problem", f"the problems differ (Pyomo != Gurobi): {d}")
        return False
    for what, f in (("inputs", problem.inputs_of), ("exposed arrays", problem.exposed_of)):
        if d := same_dict(f(a.backend), f(b.backend)):
            res.fail(f"{key}:{what}", f"the {what} differ (Pyomo != Gurobi): {d}")
            return False
    if with_attrs and (d := same_dict(attrs_of(a.backend), attrs_of(b.backend))):
        res.fail(f"{key}:attributes", f"dimensions, references, attributes or number of elements differ (Pyomo != Gurobi): {d}")
        return False
    for name in a.backend.variables.data_vars:
        x, y = a.backend.get_variable_bounds(name), b.backend.get_variable_bounds(name)
        for s in ("lb", "ub"):
            ex, ey = ({k: problem.rnd(v) for k, v in problem.elements(z[s].astype(float)).items()} for z in (x, y))
            if a.backend.math.variables[name].domain == "integer":
                ex, ey = ({k: problem.bounds(v, v, True)[s == "ub"] for k, v in e.items()} for e in (ex, ey))
                ex, ey = ({k: v for k, v in e.items() if v is not None} for e in (ex, ey))
            # no bound may be reported as missing or as infinity
            ex, ey = ({k: v for k, v in e.items() if abs(v) < 1e90} for e in (ex, ey))
            if ex != ey:
                res.fail(f"{key}:bounds:{name}", f"get_variable_bounds({name}).{s}: {same_dict(ex, ey)}")
                return False
    if a.backend.has_integer_or_binary_variables != b.backend.has_integer_or_binary_variables:
        res.fail(f"{key}:integers", "has_integer_or_binary_variables differs")
        return False
    return True


def results_close(a, b, res, key):
    if a.runtime.termination_condition != b.runtime.termination_condition:
        # the solvers name an unbounded or infeasible problem in their own ways
        if "optimal" in (a.runtime.termination_condition, b.runtime.termination_condition):
            res.fail(f"{key}:status", f"{a.runtime.termination_condition} != {b.runtime.termination_condition}")
        return
    if a.runtime.termination_condition != "optimal":
        return
    if set(a.results.data_vars) - set(b.results.data_vars) | (set(b.results.data_vars) - set(a.results.data_vars)):
        # arrays without any value are left out; that depends on the optimum only for conditional indicators
        diff = set(a.results.data_vars) ^ set(b.results.data_vars)
        cond = set(a.math.build.postprocessed.root)
        if diff - cond:
            res.fail(f"{key}:results", f"result arrays differ: {sorted(diff - cond)}")
            return
    o = a.backend.objective
    x, y = float(a.results[o]), float(b.results[o])
    if abs(x - y) > 1e-3 * max(1, abs(x)):
        res.fail(f"{key}:optimum", f"optimal objective {x} (Pyomo) != {y} (Gurobi)")
    for name in set(a.results.data_vars) & set(b.results.data_vars):
        xa, ya = a.results[name], b.results[name]
        if name in a.math.build.postprocessed.root:
            continue
        if set(xa.dims) != set(ya.dims) or not bool((xa.notnull() == ya.notnull()).all()):
            res.fail(f"{key}:index:{name}", f"result {name}: index of values differs")


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["case_" + case[0]](case, res)


def case_sys(case, res):
    _, feats, do_solve = case
    ms = [systems.build(systems.load(feats, backend=be)) for be in ("pyomo", "gurobi")]
    key = "sys:" + ("+".join(feats) if len(feats) < 4 else "all-" + "-".join(sorted(set(systems.F) - set(feats))))
    if compare(*ms, res, key) and do_solve:
        for m in ms:
            m.solve()
        results_close(*ms, res, key)
    if res.sample is None:
        res.sample = {"features": feats, "compared components": res.evaluations}


def example(name, be):
    import calliope

    func, kw, period = EXAMPLES[name]
    kw = dict(kw)
    od = dict(kw.pop("override_dict", {}))
    od["config.build.backend"] = be
    if period:
        od["config.init.subset.timesteps"] = period
    return getattr(calliope.examples, func)(override_dict=od, **kw)


def case_example(case, res):
    ms = [example(case[1], be) for be in ("pyomo", "gurobi")]
    for m in ms:
        systems.build(m)
    compare(*ms, res, f"example:{case[1]}")
    res.sample = {"example": case[1], "compared components": res.evaluations}


def small_definition(be):
    inp = dict(c09.BASE)
    inp["pt"] = (("techs",), {("s",): 0, ("t",): math.inf})
    inp["lb"] = (("nodes",), {("a",): True, ("b",): False})
    inp["pzz"] = (("nodes",), {("a",): 0, ("b",): 0})
    inp["py2"] = (("breakpoints",), {(0,): 0, (1,): 4})
    inp["px3"] = (("breakpoints",), {(0,): 0, (1,): 3})
    inp["pyn"] = (("nodes", "breakpoints"), {("a", 0): 0, ("a", 1): 2, ("a", 2): 7, ("b", 0): 1, ("b", 1): 2, ("b", 2): 5})
    d = c09.definition(inp, be)
    d["config"]["init"]["math_paths"]["base"] = MATH
    return d


def small(be):
    import calliope

    d = small_definition(be)
    m = calliope.read_dict(d)
    m.build()
    return m


def add(b, group, name, spec):
    from calliope import exceptions
    from calliope.schemas import math_schema

    cls = {"constraints": math_schema.Constraint, "variables": math_schema.Variable, "global_expressions": math_schema.GlobalExpression,
           "objectives": math_schema.Objective, "piecewise_constraints": math_schema.PiecewiseConstraint}[group]
    try:
        getattr(b, "add_" + group.removesuffix("s"))(name, cls.model_validate(spec))
        return "accepted"
    except exceptions.BackendError:
        return "refused"
    except Exception as e:
        return f"{type(e).__name__}: {str(e)[:120]}"


def constant(spec):
    l, r = spec["equations"][0]["expression"].replace("<=", "==").replace(">=", "==").split(" == ")
    return all("v" not in x or x in ("vn * 0", "vn - vn") for x in (l, r))


UPPER = {"v0": 10, "vn": 10, "vnt": 9}
XMAX = {"px": 10, "py": 8, "px3": 3, "p0": None}


def spans(spec):
    """Do the x breakpoints cover the bounds of the x variable?"""
    top = XMAX[spec["x_values"]]
    return top is not None and top >= UPPER[spec["x_expression"]]


def straight(spec):
    """Two consecutive segments of the same slope."""
    return spec["x_values"] == spec["y_values"] and spec["x_values"] != "p0"


def case_adds(case, res):
    _, group, start = case
    specs = list(GROUPS[group]())[start:start + BATCH[group]]
    ms = [small(be) for be in ("pyomo", "gurobi")]
    if group == "objectives":
        for m in ms:
            add(m.backend, "global_expressions", "g9", {"foreach": ["nodes"], "equations": [{"expression": "vn * pnd + 1"}]})
    for i, spec in enumerate(specs):
        name = f"n{start + i}"
        outs = [add(m.backend, group, name, spec) for m in ms]
        res.evaluations += 1
        res.counts[f"{group}:{outs[0].split(':')[0]}"] += 1
        res.outcome(outs)
        label = f"adds:{group}:{spec.get('equations', [{}])[0].get('expression') or spec}"
        if outs == ["refused", "accepted"] and group == "constraints" and constant(spec):
            res.fail("constant-constraint", f"{spec}: refused by the Pyomo interface, accepted by the Gurobi interface")
            ms[1].backend.delete_component(name, "constraints")
            continue
        if outs == ["refused", "accepted"] and group == "piecewise_constraints" and (not spans(spec) or straight(spec)):
            res.fail("piecewise-straight" if straight(spec) else "piecewise-outside-breakpoints", f"{spec}: refused by the Pyomo interface, accepted by the Gurobi interface")
            ms[1].backend.delete_component(name, "piecewise_constraints")
            continue
        if outs[0] != outs[1]:
            res.fail(label, f"{spec}: Pyomo interface {outs[0]}, Gurobi interface {outs[1]}")
            return
        if ":" in outs[0]:
            res.fail(label, f"{spec}: both interfaces fail with {outs[0]} rather than a BackendError")
            return
        if outs[0] == "accepted" and group == "objectives":
            for m in ms:
                m.backend.set_objective(name)
            if not compare(*ms, res, label):
                return
    compare(*ms, res, f"adds:{group}:{start}")
    res.sample = {"group": group, "first": specs[0], "number": len(specs)}
