"""The optimisation problem a backend would send to its solver, as plain comparable data.

extract(backend) gives
  variables:   {(name, ((dim, item), ...)): (lb, ub, is_integer, fixed value or None)}
  constraints: {(name, index): (lb, form, ub)}   with form = (constant-free terms)
  piecewise:   {(name, index): (input variable, output variable, x points, y points)}
  objective:   (sense, form, constant)            the active one
  totals:      numbers of solver objects, so that objects left behind are seen
Forms are frozensets of (term, coefficient), term a sorted tuple of variable keys (() is the constant).
"""
from __future__ import annotations

import math

import numpy as np
import pandas as pd

SIG = 10


def rnd(x):
    x = float(x)
    if x == 0 or math.isinf(x) or math.isnan(x):
        return 0.0 if x == 0 else x
    return float(f"{x:.{SIG}g}")


def item(v):
    if isinstance(v, (np.datetime64, pd.Timestamp)):
        return pd.Timestamp(v).isoformat()
    if isinstance(v, np.generic):
        v = v.item()
    return v


def elements(da):
    """{index: object} of the non-null elements; the index is sorted by dimension name."""
    dims = list(da.dims)
    order = sorted(range(len(dims)), key=lambda i: dims[i])
    labels = [[item(x) for x in da[d].values] for d in dims]
    out = {}
    vals = np.asarray(da.values)
    if da.dtype.kind != "O" and not pd.notna(vals).any():
        return out
    for pos in np.ndindex(*vals.shape):
        v = vals[pos] if vals.shape else vals.item()
        if v is None or (isinstance(v, float) and math.isnan(v)) or (isinstance(v, np.datetime64) and np.isnat(v)):
            continue
        out[tuple((dims[i], labels[i][pos[i]]) for i in order)] = v
    return out


def clean(terms):
    out = {}
    for t, c in terms:
        out[t] = out.get(t, 0.0) + c
    return frozenset((t, rnd(c)) for t, c in out.items() if abs(c) > 1e-12 or math.isnan(c))


def split(form):
    """(terms without constant, constant)."""
    const = sum(c for t, c in form if t == ())
    return frozenset((t, c) for t, c in form if t != ()), const


def norm_row(lb, form, ub):
    """Scale-free row: the constant moved to the bounds."""
    terms, const = split(form)
    if not terms:
        # a row without variables is either no restriction or infeasible
        ok = (lb is None or lb <= const + 1e-9) and (ub is None or ub >= const - 1e-9)
        return (None, frozenset(), None) if ok else (1.0, frozenset(), 0.0)
    lb = None if lb is None or lb == -math.inf else rnd(lb - const)
    ub = None if ub is None or ub == math.inf else rnd(ub - const)
    # orient rows: the lexicographically first term has a positive coefficient
    if terms:
        first = min(terms, key=lambda tc: repr(tc[0]))
        if first[1] < 0:
            terms = frozenset((t, -c) for t, c in terms)
            lb, ub = (None if ub is None else 0.0 - ub), (None if lb is None else 0.0 - lb)
    return (lb, terms, ub)


def bounds(lb, ub, integer):
    """Bounds with infinity as None; an integer variable has integer bounds."""
    lo = None if lb is None or lb <= -1e100 else lb
    hi = None if ub is None or ub >= 1e100 else ub
    if integer:
        lo = lo if lo is None or lo >= 1e100 else math.ceil(lo - 1e-9)
        hi = hi if hi is None or hi <= -1e100 else math.floor(hi + 1e-9)
    return tuple(None if x is None else rnd(max(-1e100, min(1e100, x))) for x in (lo, hi))


def inputs_of(backend):
    out = {}
    for name, da in backend.inputs.data_vars.items():
        if da.attrs.get("obj_type") in ("parameters", "lookups"):
            out[name] = {k: (rnd(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v) for k, v in elements(da).items()}
    return out


def exposed_of(backend):
    """The parameter values the backend reports."""
    out = {}
    for name in backend.parameters.data_vars:
        da = backend.get_parameter(name, as_backend_objs=False)
        out[name] = {k: rnd(v) for k, v in elements(da).items()}
    for name in backend.lookups.data_vars:
        out[name] = elements(backend.get_lookup(name))
    return out


def extract(backend):
    return pyomo(backend) if "Pyomo" in type(backend).__name__ else gurobi(backend)


# -- Pyomo -----------------------------------------------------------------------------------------------------------
def pyomo(backend):
    from pyomo.core.expr.visitor import identify_variables  # noqa: F401
    from pyomo.repn.standard_repn import generate_standard_repn

    inst = backend._instance
    p = {"variables": {}, "constraints": {}, "piecewise": {}, "totals": {}, "foreign": []}
    names = {}
    nvar = 0
    for name, da in backend.variables.data_vars.items():
        for idx, v in elements(da).items():
            names[id(v)] = (name, idx)
            p["variables"][(name, idx)] = (
                *bounds(v.lb, v.ub, not v.is_continuous()), not v.is_continuous(), rnd(v.value) if v.fixed else None)
            nvar += 1
    fixed = []
    for name, da in backend.variables.data_vars.items():
        for v in elements(da).values():
            if v.fixed:
                fixed.append(v)
                v.unfix()
    try:
        def form(expr):
            if isinstance(expr, (int, float, np.number)):
                return clean([((), float(expr))])
            r = generate_standard_repn(expr, compute_values=True, quadratic=True)
            terms = [((), float(r.constant))]
            key = lambda v: names.get(id(v)) or ("?", (str(v),))  # noqa: E731
            terms += [((key(v),), float(c)) for v, c in zip(r.linear_vars, r.linear_coefs)]
            terms += [(tuple(sorted((key(a), key(b)), key=repr)), float(c)) for (a, b), c in zip(r.quadratic_vars, r.quadratic_coefs)]
            if r.nonlinear_expr is not None:
                terms.append((("nonlinear", str(r.nonlinear_expr)), 1.0))
            return clean(terms)

        ncon = 0
        for name, da in backend.constraints.data_vars.items():
            for idx, c in elements(da).items():
                ncon += 1
                lb, ub = c.lb, c.ub
                p["constraints"][(name, idx)] = norm_row(
                    None if lb is None else float(_val(lb)), form(c.body), None if ub is None else float(_val(ub)))
                if not c.active:
                    p["foreign"].append(("inactive", name, idx))
        npw = 0
        for name, da in backend.piecewise_constraints.data_vars.items():
            for idx, c in elements(da).items():
                npw += 1
                p["piecewise"][(name, idx)] = (_only(form(c.input)), _only(form(c.output)),
                                               tuple(rnd(_val(x)) for x in c.breakpoints), tuple(rnd(_val(x)) for x in c.values))
        p["objective"] = None
        act = 0
        for name, da in backend.objectives.data_vars.items():
            o = da.item() if da.shape == () else None
            if o is None or isinstance(o, float):
                continue
            if o.active:
                act += 1
                f, const = split(form(o.expr))
                p["objective"] = (name, "min" if o.sense == 1 or str(o.sense).startswith("min") else "max", f, rnd(const))
        # every solver object must belong to an entry of the dataset
        inst_v = {id(v) for lst in inst.variables.values() for v in lst}
        inst_c = {id(c) for lst in inst.constraints.values() for c in lst}
        n_o = sum(1 for lst in inst.objectives.values() for o in lst if o.active)
        n_p = sum(len(lst) for lst in inst.piecewise_constraints.values())
        p["totals"] = {"variables": len(inst_v) - nvar, "constraints": len(inst_c) - ncon, "active objectives": n_o - act, "several active": max(0, act - 1), "piecewise": n_p - npw,
                       "unattached variables": len(set(names) - inst_v)}
        used = set()
        for lst in list(inst.constraints.values()) + list(inst.objectives.values()):
            for c in lst:
                if c.active:
                    for v in identify_variables(c.body if hasattr(c, "body") else c.expr):
                        used.add(id(v))
        p["totals"]["variables used but not in the problem"] = len(used - inst_v)
    finally:
        for v in fixed:
            v.fix(v.value)
    return p


def _val(x):
    return x() if callable(x) else x


def _only(form):
    return tuple(sorted(form, key=repr))


# -- Gurobi ----------------------------------------------------------------------------------------------------------
def gurobi(backend):
    import gurobipy as gp

    inst = backend._instance
    inst.update()
    p = {"variables": {}, "constraints": {}, "piecewise": {}, "totals": {}, "foreign": []}
    names, handles = {}, []
    for name, da in backend.variables.data_vars.items():
        for idx, v in elements(da).items():
            names[v.index] = (name, idx)
            handles.append(v)
            p["variables"][(name, idx)] = (*bounds(v.LB, v.UB, v.VType != "C"), v.VType != "C", None)

    def key(v):
        return names.get(v.index, ("?", (str(v),)))

    def form(e):
        if isinstance(e, (int, float, np.number)):
            return clean([((), float(e))])
        if isinstance(e, gp.Var):
            return clean([((key(e),), 1.0)])
        terms = []
        if isinstance(e, gp.QuadExpr):
            terms += [(tuple(sorted((key(e.getVar1(i)), key(e.getVar2(i))), key=repr)), e.getCoeff(i)) for i in range(e.size())]
            e = e.getLinExpr()
        terms += [((key(e.getVar(i)),), e.getCoeff(i)) for i in range(e.size())]
        terms.append(((), e.getConstant()))
        return clean(terms)

    ncon = 0
    for name, da in backend.constraints.data_vars.items():
        for idx, c in elements(da).items():
            ncon += 1
            if isinstance(c, gp.QConstr):
                f, s, r = form(inst.getQCRow(c)), c.QCSense, c.QCRHS
            elif isinstance(c, gp.Constr):
                f, s, r = form(inst.getRow(c)), c.Sense, c.RHS
            else:
                f, s, r = clean([(("other", str(c)), 1.0)]), "=", 0
            p["constraints"][(name, idx)] = norm_row(r if s in ">=" else None, f, r if s in "<=" else None)
    npw = 0
    for name, da in backend.piecewise_constraints.data_vars.items():
        for idx, c in elements(da).items():
            npw += 1
            x, y, xp, yp = inst.getGenConstrPWL(c)
            p["piecewise"][(name, idx)] = (_only(form(x)), _only(form(y)), tuple(rnd(a) for a in xp), tuple(rnd(a) for a in yp))
    f, const = split(form(inst.getObjective()))
    p["objective"] = (backend.objective, "min" if inst.ModelSense == 1 else "max", f, rnd(const))
    p["totals"] = {"variables": inst.NumVars - len(handles), "constraints": inst.NumConstrs + inst.NumQConstrs - ncon,
                   "active objectives": 0, "several active": 0, "piecewise": inst.NumGenConstrs - npw, "unattached variables": sum(v.index < 0 for v in handles),
                   "variables used but not in the problem": 0}
    return p


# -- comparison --------------------------------------------------------------------------------------------------------
def diff(a, b, what=("variables", "constraints", "piecewise", "objective", "totals"), tol=1e-9):
    """None if the problems are equal, else a short description of the first difference."""
    for w in what:
        x, y = a.get(w), b.get(w)
        if x == y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y), key=repr):
                if k not in x:
                    return f"{w}: only in the second: {show(k)} = {show(y[k])}"
                if k not in y:
                    return f"{w}: only in the first: {show(k)} = {show(x[k])}"
                if x[k] != y[k] and not close(x[k], y[k], tol):
                    return f"{w} {show(k)}: {show(x[k])} != {show(y[k])}"
        elif not close(x, y, tol):
            return f"{w}: {show(x)} != {show(y)}"
    return None


def close(x, y, tol):
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        dx, dy = dict(x), dict(y)
        return set(dx) == set(dy) and all(close(dx[k], dy[k], tol) for k in dx)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(close(i, j, tol) for i, j in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    return x == y


def show(x):
    if isinstance(x, frozenset):
        return "{" + ", ".join(f"{'*'.join(show(k) for k in t) or 1}: {c:g}" for t, c in sorted(x, key=repr)) + "}"
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple):
        return f"{x[0]}[{', '.join(str(i[1]) if isinstance(i, tuple) else str(i) for i in x[1])}]"
    if isinstance(x, tuple):
        return "(" + ", ".join(show(i) for i in x) + ")"
    return str(x)
