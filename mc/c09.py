"""C09: an edited optimisation problem equals one built afresh.

States are built problems; transitions are edits through the backend interface (input updates of every shape, bounds,
solve-and-fix, unfix, objective switch, adding and deleting components, verbose names, rejected edits).  All edit
sequences up to the stated length are executed on the real backends.  The reference keeps the final inputs as plain
dictionaries, writes them into the model definition, builds that from scratch and applies only the edits that are not
input updates; the two problems (variables, bounds, domains, rows, piecewise data, objective, solver object totals) must be equal.
"""
import copy
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mc import problem, tiny

PROPERTY, LEVEL = "C09", "model_checking"
BOUNDS = {"quick": "all edit sequences of length 1 over 48 edits on both interfaces; all of length 2 over 31 (Pyomo) and over 12 x 10 (Gurobi)",
          "thorough": "all of length 2 over the whole alphabet on both interfaces, and all of length 3 whose middle edit is an input update (Gurobi: first edit of the 12)"}
RULE = "distinct problems reached"
ASSUMPTIONS = ["fixed values: on Pyomo any values the solver could have returned (set on the variables), on Gurobi those of a real solve",
               "deleting a component that others refer to is outside the space (a fresh build could not contain it)",
               "fixing uses the values of a solve made immediately before"]
CHUNK = 1
CASE_TIMEOUT = 600
MATH = str(tiny.pathlib.Path(__file__).parent / "data" / "c09" / "base.yaml")
TS = [f"2005-01-01 {h:02d}:00" for h in range(3)]
NAN = float("nan")

BASE = {  # name -> (dims, {index: value})
    "p0": ((), {(): 2}), "pn": (("nodes",), {("a",): 1}), "pnd": (("nodes",), {("b",): 3}),
    "pnt": (("nodes", "techs"), {("a", "s"): 1, ("b", "s"): 3}), "pntd": (("nodes", "techs"), {("a", "t"): 2, ("b", "s"): 9}),
    "pts": (("timesteps",), {(t,): i + 1 for i, t in enumerate(TS)}),
    "px": (("breakpoints",), {(0,): 0, (1,): 5, (2,): 10}), "py": (("breakpoints",), {(0,): 0, (1,): 2, (2,): 8}),
    "ls": (("techs",), {("s",): "foo"}), "lnn": (("nodes",), {("a",): "b"}),
}
ITEMS = {"nodes": ["a", "b"], "techs": ["s", "t"], "timesteps": TS, "breakpoints": [0, 1, 2]}

# -- the edits: name -> spec -----------------------------------------------------------------------------------------
UPD = {
    "u_p0": ("p0", (), {(): 3}),
    "u_p0_same_side": ("p0", (), {(): 1.5}),
    "u_p0_nan": ("p0", (), {}),
    "u_pn_b": ("pn", ("nodes",), {("b",): 6}),
    "u_pn_a": ("pn", ("nodes",), {("a",): 4}),
    "u_pnd": ("pnd", (), {(): 2}),
    "u_pnd_b": ("pnd", ("nodes",), {("b",): 9}),
    "u_pnd_ab": ("pnd", ("nodes",), {("a",): 8, ("b",): 2}),
    "u_pnt_n": ("pnt", ("nodes",), {("a",): 8, ("b",): 2}),
    "u_pnt_T": ("pnt", ("techs", "nodes"), {("s", "a"): 6, ("s", "b"): 2}),
    "u_pnt_s": ("pnt", ("techs",), {("s",): 7}),
    "u_pntd_bs": ("pntd", ("nodes", "techs"), {("b", "s"): 4}),
    "u_pntd_full": ("pntd", ("techs", "nodes"), {("s", "a"): 1, ("t", "a"): 3, ("s", "b"): 5, ("t", "b"): 7}),
    "u_pz_n": ("pz", ("nodes",), {("a",): 3, ("b",): 6}),
    "u_pz": ("pz", (), {(): 3}),
    "u_pmiss": ("pmiss", (), {(): 4}),
    "u_pts": ("pts", ("timesteps",), {(TS[1],): 8}),
    "u_pts_0": ("pts", ("timesteps",), {(TS[0],): 0}),
    "u_pts_inf": ("pts", ("timesteps",), {(TS[2],): math.inf}),
    "u_px": ("px", ("breakpoints",), {(1,): 4}),
    "u_ls": ("ls", ("techs",), {("t",): "foo", ("s",): "bar"}),
    "u_lnn": ("lnn", ("nodes",), {("b",): "a"}),
}
BND = {
    "b_v0": ("v0", "max", (), {(): 8}),
    "b_vn_a": ("vn", "min", ("nodes",), {("a",): 1}),
    "b_vts": ("vts", "max", ("timesteps",), {(TS[2],): 15}),
    "b_vi": ("vi", "min", ("nodes",), {("a",): 1}),
    "b_vn_nan": ("vn", "max", ("nodes",), {("a",): 6, ("b",): NAN}),  # no value: the bound stays
    "b_vn": ("vn", "max", ("nodes",), {("a",): 9, ("b",): 7}),
}
ADD = {
    "a_c7": ("constraints", "c7", {"foreach": ["nodes"], "where": "pnd>1", "equations": [{"expression": "vn <= pnd + 20"}]}),
    "a_v9": ("variables", "v9", {"foreach": ["nodes"], "where": "pn", "bounds": {"min": 0, "max": "pnd"}}),
    "a_g9": ("global_expressions", "g9", {"foreach": ["nodes"], "equations": [{"expression": "g1 * 2 + pz"}]}),
    "a_o3": ("objectives", "o3", {"sense": "minimise", "equations": [{"expression": "sum(vn, over=nodes) * pmiss"}]}),
}
DEL = {"d_c1": ("constraints", "c1"), "d_c3": ("constraints", "c3"), "d_o2": ("objectives", "o2"), "d_w1": ("piecewise_constraints", "w1"), "d_c6": ("constraints", "c6")}
OTHER = ["fix_vn", "fix_vn_a", "fix_vi", "unfix_vn", "o2", "o1", "verbose"]
BAD = {
    "x_unknown_input": "update of an input that does not exist",
    "x_bound_by_param": "bound update of a variable bounded by a parameter",
    "x_add_twice": "adding a component that exists",
    "x_add_bad": "adding a constraint with an expression that does not parse",
    "x_add_bad_dims": "adding a constraint whose expression has other dimensions",
    "x_objective": "switching to an unknown objective",
    "x_update_dims": "an update that makes a constraint invalid",
    "x_unknown_var": "bound update of an unknown variable",
}
EDITS = [*UPD, *BND, *ADD, *DEL, *OTHER, *BAD]


QUICK_UPD = ["u_p0", "u_pn_b", "u_pnd", "u_pnd_b", "u_pnd_ab", "u_pnt_n", "u_pnt_T", "u_pntd_bs", "u_pz_n", "u_pmiss", "u_pts", "u_pts_0", "u_pts_inf", "u_px", "u_ls", "u_lnn"]
CHANGING = [e for e in EDITS if e not in BAD and e not in ("u_p0_nan", "o1")]
SINGLE_ONLY = {"u_pnd", "u_pnt_T", "u_pts", "b_v0", "d_c6", "a_o3", "fix_vn_a", "b_vn_nan"}  # in the quick tier
GUROBI_FIRST = ["fix_vn", "fix_vi", "b_vi", "b_vn_a", "a_v9", "a_g9", "d_c1", "d_w1", "o2", "verbose", "u_pz_n", "u_ls"]
GUROBI_LAST = ["u_pnd_b", "u_pn_b", "u_pntd_bs", "u_px", "u_lnn", "u_pz_n", "b_vn", "o1", "o2", "x_add_bad_dims"]


def cases(tier):
    """Histories are grouped by unordered pair, so that one reference build serves both orders."""
    q = tier == "quick"
    first = [e for e in CHANGING if not q or ((e not in UPD or e in QUICK_UPD) and e not in SINGLE_ONLY)]
    last = first + list(BAD) + ["o1"]
    out = []
    for be in ("pyomo", "gurobi"):
        out.append(["single", be, EDITS[::2]])
        out.append(["single", be, EDITS[1::2]])
    for i, a in enumerate(first):
        part = [[a, b] for b in first[i:]] + [[b, a] for b in first[i + 1:]] + [[a, b] for b in last if b not in first]
        for k in range(0, len(part), 40):
            out.append(["pairs", "pyomo", part[k:k + 40]])
    for a in GUROBI_FIRST if q else first:
        out.append(["pairs", "gurobi", [[a, b] for b in (GUROBI_LAST if q else last)]])
    if not q:
        for be in ("pyomo", "gurobi"):
            for a in first if be == "pyomo" else GUROBI_FIRST:
                for b in QUICK_UPD:
                    out.append(["triples", be, [[a, b, c] for c in last if c in QUICK_UPD or c not in UPD]])
    out.sort(key=lambda c: -len(c[2]) * (4 if c[1] == "gurobi" else 1))
    return out


# -- reference ----------------------------------------------------------------------------------------------------------
class Ref:
    """What the final problem should be made of."""

    def __init__(self):
        self.inputs = {k: (d, dict(v)) for k, (d, v) in BASE.items()}
        self.bounds, self.added, self.deleted = [], [], set()
        self.objective, self.fixed = "o1", {}

    def update(self, name, dims, vals):
        have, data = self.inputs.get(name, ((), {}))
        if not vals:
            return
        all_dims = tuple(have) + tuple(d for d in dims if d not in have)
        out = {}
        for key in itertools.product(*[ITEMS[d] for d in all_dims]):
            e = dict(zip(all_dims, key))
            new = vals.get(tuple(e[d] for d in dims))
            old = data.get(tuple(e[d] for d in have))
            v = new if new is not None else old
            if v is not None:
                out[key] = v
        self.inputs[name] = (all_dims, out)


def definition(inputs, be):
    d = tiny.definition(MATH, None, 3, be)
    dd = {}
    for name, (dims, vals) in inputs.items():
        if not dims:
            dd[name] = vals[()]
        elif vals:
            dd[name] = {"data": list(vals.values()), "index": [list(k) for k in vals], "dims": list(dims)}
    d["data_definitions"] = dd
    if be == "pyomo":
        d["config"]["solve"]["solver"] = "cbc"
    return d


def array(dims, vals, name):
    """The new values as a user would pass them: partial index, any order of dimensions."""
    if not dims:
        return vals.get((), NAN)
    labels = [sorted({k[i] for k in vals}, key=ITEMS[d].index) for i, d in enumerate(dims)]
    arr = np.full([len(x) for x in labels], NAN, dtype=object if any(isinstance(v, str) for v in vals.values()) else float)
    for k, v in vals.items():
        arr[tuple(labels[i].index(x) for i, x in enumerate(k))] = v
    return xr.DataArray(arr, coords={d: (pd.to_datetime(x) if d == "timesteps" else x) for d, x in zip(dims, labels)}, dims=dims)


def add_component(b, group, name, spec):
    from calliope.schemas import math_schema

    cls = {"constraints": math_schema.Constraint, "variables": math_schema.Variable, "global_expressions": math_schema.GlobalExpression, "objectives": math_schema.Objective}[group]
    getattr(b, "add_" + group.removesuffix("s"))(name, cls.model_validate(spec))


def legal(ref, e):
    """Is the edit one the interface has to accept after the edits so far?"""
    if e in ADD:
        return ADD[e][1] not in [a[1] for a in ref.added]
    if e in DEL:
        return DEL[e][1] not in ref.deleted and ref.objective != DEL[e][1]
    if e in ("o2",):
        return "o2" not in ref.deleted
    return e not in BAD


def reject_edit(b, e):
    from calliope.schemas import math_schema

    if e == "x_unknown_input":
        b.update_input("nope", 1)
    elif e == "x_bound_by_param":
        b.update_variable_bounds("vnt", max=3)
    elif e == "x_add_twice":
        add_component(b, "constraints", "c2", ADD["a_c7"][2])
    elif e == "x_add_bad":
        add_component(b, "constraints", "c8", {"foreach": ["nodes"], "equations": [{"expression": "vn <= nope + 1"}]})
    elif e == "x_add_bad_dims":
        add_component(b, "constraints", "c8", {"foreach": ["nodes"], "equations": [{"expression": "vnt <= 1"}]})
    elif e == "x_objective":
        b.set_objective("nope")
    elif e == "x_update_dims":
        b.update_input("pts", xr.DataArray([[1.0] * 3, [2.0] * 3], coords={"nodes": ["a", "b"], "timesteps": pd.to_datetime(TS)}, dims=["nodes", "timesteps"]))
    elif e == "x_unknown_var":
        b.update_variable_bounds("nope", max=3)


class Skip(Exception):
    pass


def apply_edit(m, ref, e, be):
    b = m.backend
    if e in UPD:
        name, dims, vals = UPD[e]
        b.update_input(name, array(dims, vals, name))
        ref.update(name, dims, vals)
    elif e in BND:
        name, side, dims, vals = BND[e]
        b.update_variable_bounds(name, **{side: array(dims, vals, name)})
        ref.bounds.append((name, side, dims, vals))
    elif e in ADD:
        add_component(b, *ADD[e])
        ref.added.append(ADD[e])
    elif e in DEL:
        group, name = DEL[e]
        b.delete_component(name, group)
        ref.deleted.add(name)
    elif e in ("o1", "o2"):
        b.set_objective(e)
        ref.objective = e
    elif e == "verbose":
        b.verbose_strings()
    elif e in ("fix_vn", "fix_vn_a", "fix_vi"):
        name = e[4:6]
        solve_plain(b, be)
        vals = {(name, k): v for k, v in problem.elements(b.get_variable(name, as_backend_objs=False)).items()}
        if e == "fix_vn_a":
            b.fix_variable("vn", where=xr.DataArray([True, False], coords={"nodes": ["a", "b"]}, dims="nodes"))
            vals = {k: v for k, v in vals.items() if dict(k[1])["nodes"] == "a"}
        else:
            b.fix_variable(name)
        if be == "pyomo":
            ref.fixed.update(vals)
        else:  # there, fixing means setting both bounds
            for (_, k), v in vals.items():
                for side in ("min", "max"):
                    ref.bounds.append((name, side, tuple(d for d, _ in k), {tuple(x for _, x in k): v}))
    elif e == "unfix_vn":
        if be == "gurobi":
            raise Skip("documented as not supported")
        b.unfix_variable("vn")
        ref.fixed = {k: v for k, v in ref.fixed.items() if k[0] != "vn"}


def solve_plain(b, be):
    """Give every variable a value: solve, or (Pyomo, where only the values matter) set them directly."""
    if be == "pyomo":
        for name, da in b.variables.data_vars.items():
            for i, v in enumerate(problem.elements(da).values()):
                v.value = 1 + i
        return
    b._instance.Params.OutputFlag = 0
    b._instance.optimize()
    if b._instance.Status != 2:
        raise Skip("no solution to fix")


_fresh: dict = {}
_built: dict = {}


def built(inputs, be):
    """A model built from scratch from these inputs (Pyomo problems are kept and copied, Gurobi ones cannot be)."""
    import calliope

    key = repr((be, sorted((k, v[0], sorted(v[1].items())) for k, v in inputs.items())))
    if be == "pyomo":
        if key not in _built:
            if len(_built) > 400:
                _built.clear()
            m = calliope.read_dict(definition(inputs, be))
            m.build()
            _built[key] = m
        m = _built[key]
        c = copy.copy(m)
        c.backend = copy.deepcopy(m.backend)
        return c
    m = calliope.read_dict(definition(inputs, be))
    m.build()
    return m


def fresh(ref, be):
    """The reference problem: built from the final inputs, then the remaining edits."""
    key = repr((be, sorted((k, v[0], sorted(v[1].items())) for k, v in ref.inputs.items()), ref.added, sorted(ref.deleted), ref.objective))
    if key not in _fresh:
        if len(_fresh) > 2000:
            _fresh.clear()
        b = built(ref.inputs, be).backend
        for a in ref.added:
            add_component(b, *a)
        if ref.objective != "o1":
            b.set_objective(ref.objective)
        for name in sorted(ref.deleted):
            group = next(g for g, n in DEL.values() if n == name)
            b.delete_component(name, group)
        _fresh[key] = snapshot(b)
    s = copy.deepcopy(_fresh[key])
    s["objective"] = (ref.objective, ref.objective)
    V = s["problem"]["variables"]
    for name, side, dims, vals in ref.bounds:
        for k in [k for k in V if k[0] == name]:
            e = {d: (str(pd.Timestamp(x))[:16] if d == "timesteps" else x) for d, x in k[1]}
            v = vals.get(tuple(e[d] for d in dims))
            if v is not None and v == v:
                lb, ub, dom, fx = V[k]
                V[k] = (problem.rnd(v), ub, dom, fx) if side == "min" else (lb, problem.rnd(v), dom, fx)
    for k, v in ref.fixed.items():
        if k in V:
            lb, ub, dom, _ = V[k]
            V[k] = (lb, ub, dom, problem.rnd(v))
    return s


def snapshot(b):
    return {"problem": problem.extract(b), "inputs": problem.inputs_of(b), "exposed": problem.exposed_of(b),
            "entries": {n: da.attrs["obj_type"] for n, da in b._dataset.data_vars.items()},
            "objective": (b.objective, b.config.objective),
            "math": {g: sorted(b.math[g].root) for g in ("variables", "global_expressions", "constraints", "piecewise_constraints", "objectives", "parameters", "lookups")}}


DEFINED = {("a", "s"), ("a", "t"), ("b", "s")}


def inside(vals):
    """Only elements where the technology exists: loading drops the others from the inputs."""
    if not isinstance(vals, dict):
        return vals
    return {k: v for k, v in vals.items() if not ({"nodes", "techs"} <= set(dict(k)) and (dict(k)["nodes"], dict(k)["techs"]) not in DEFINED)}


def compare(got, want):
    d = problem.diff(got["problem"], want["problem"])
    if d:
        return d
    left = {k: v for k, v in got["problem"]["totals"].items() if v}
    if left:
        return f"solver objects that belong to no component: {left}"
    for w in ("inputs", "exposed", "entries", "objective", "math"):
        if got[w] != want[w]:
            if isinstance(got[w], dict):
                for k in sorted(set(got[w]) | set(want[w])):
                    x, y = (inside(z[w].get(k)) for z in (got, want))
                    if x != y and not (w in ("inputs", "exposed") and not x and not y):
                        return f"{w} {k}: {x} != {y}"
            else:
                return f"{w}: {got[w]} != {want[w]}"
    return None


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for seq in case[2]:
            run_seq(case[1], seq if isinstance(seq, list) else [seq], res)


def run_seq(be, seq, res):
    m = built(BASE, be)
    ref = Ref()
    done = []
    for e in seq:
        done.append(e)
        if not legal(ref, e):
            if e not in BAD:
                return
            before = snapshot(m.backend)
            cfg = m.backend.config.model_dump()
            try:
                reject_edit(m.backend, e)
            except Exception as err:
                res.counts["rejected"] += 1
                d = compare(snapshot(m.backend), before)
                if d is None and cfg != m.backend.config.model_dump():
                    d = "backend configuration changed"
                if d:
                    res.fail(f"rejected:{be}:{e}", f"after {done} on {be}: {BAD[e]} raised {type(err).__name__} but changed the problem: {d}", list(done))
                    return
            else:
                res.fail(f"accepted:{be}:{e}", f"after {done} on {be}: {BAD[e]} was accepted", list(done))
                return
            continue
        try:
            apply_edit(m, ref, e, be)
        except Skip:
            res.counts["skipped"] += 1
            return
        except Exception as err:
            res.fail(f"raises:{be}:{'>'.join(done)}", f"{done} on {be}: raised {type(err).__name__}: {str(err)[:200]}", list(done))
            return
    if seq and seq[-1] in BAD:
        res.transitions += 1
        return
    want = fresh(ref, be)
    got = snapshot(m.backend)
    d = compare(got, want)
    declared = {"o1": "min", "o2": "max", "o3": "min"}
    if d is None and (o := got["problem"]["objective"]) and o[1] != declared[o[0]]:
        d = f"objective {o[0]} is declared {declared[o[0]]}, the solver is told {o[1]}"
    res.transitions += len(seq)
    res.traces += 1
    res.states += 1
    res.outcome(repr(got["problem"]))
    if d:
        lost = [e for e in ("b_vi", "fix_vi") if e in seq]
        if lost:  # is the difference exactly that a rebuilt variable forgot its bounds and fixed values?
            ref.bounds = [b for b in ref.bounds if b[0] != "vi"]
            ref.fixed = {k: v for k, v in ref.fixed.items() if k[0] != "vi"}
            if compare(got, fresh(ref, be)) is None:
                for e in lost:
                    res.fail(f"lost:{be}:{e}", f"{seq} on {be}: the update rebuilt vi without the earlier edit of it: {d}", list(seq))
                return
        res.fail(f"differs:{be}:{'>'.join(seq)}", f"{seq} on {be}: edited problem differs from a fresh one: {d}", list(seq))
    elif res.sample is None and len(seq) == 2:
        res.sample = {"edits": seq, "backend": be, "rows": len(got["problem"]["constraints"]), "variables": len(got["problem"]["variables"]), "equal": True}
