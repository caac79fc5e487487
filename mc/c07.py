"""C07: each selected index element gets exactly one equation.

Components with several equations, sub-expressions and slices are enumerated with every assignment of conditions (each a
known subset of the index); every alternative has its own constant, so the value built at an element tells which
combination was used.  The reference counts, per element, the combinations whose conditions hold.
"""
import itertools
import math
import warnings

from calliope.exceptions import BackendError
from mc import tiny

PROPERTY, LEVEL = "C07", "exploration"
RULE = "distinct components for which at least two index elements differ in the equation or alternative that applies, or for which alternatives clash"
BOUNDS = {"quick": "1 equation x 2 sub-expressions x <=2 alternatives; 2 equations x 1 sub-expression x <=2 alternatives; slices; 3x6 conditions over 3 existing of 4 index elements; pyomo and gurobi",
          "thorough": "the same shapes with all 6 conditions at every place and 3 equations"}
CHUNK = 30
EL = [("a", "s"), ("a", "t"), ("b", "s"), ("b", "t")]
EXIST = {("a", "s"), ("a", "t"), ("b", "s")}
# condition string -> index elements (of the existing ones) where it holds
CONDS = {
    "True": EXIST,
    "pn": {("a", "s"), ("a", "t")},
    "pnd": {("b", "s")},
    "pntd": {("a", "t"), ("b", "s")},
    "pnt": {("a", "s"), ("b", "s")},
    "pn and pnd": set(),
}
ALL = list(CONDS)
# conditions without an index, for objectives: does it hold?
SCALAR = {"True": True, "p0": True, "pmiss": False, "p0==2": True, "p0==3": False, "not pmiss": True}


def lists(conds, two=None):
    two = conds if two is None else two
    return [[c] for c in conds] + [list(p) for p in itertools.product(conds, two)]


YL = [["True"], ["pn"], ["pn", "pnd"], ["pn and pnd", "True"], ["pn", "True"]]
XL = [["True"], ["pntd"], ["pn", "pnd"], ["pntd", "pnt"], ["pnd", "True"], ["pntd", "pn"]]


def cases(tier):
    q = tier == "quick"
    tops = ["True", "pnt", "pn"] if q else ALL
    for top in tops:
        # one equation, two sub-expressions
        for e in (["True", "pntd"] if q else ALL):
            for x in lists(ALL):
                for y in (YL if q else lists(ALL)):
                    yield ["ge", "pyomo", top, [[e, "xy"]], x, y]
        # two equations, one sub-expression shared or not
        for e1, e2 in itertools.product(ALL, repeat=2):
            for use in (("x", "x"), ("x", ""), ("", "")):
                for x in (XL if q else lists(ALL)) if "x" in use else [["True"]]:
                    yield ["ge", "pyomo", top, [[e1, use[0]], [e2, use[1]]], x, ["True"]]
            for x in (XL[:4] if q else XL):
                for be in ("pyomo", "gurobi"):
                    yield ["con", be, top, [[e1, "x"], [e2, ""]], x, ["True"]]
        # slices, directly in an equation and inside a sub-expression
        for e in (["True", "pntd"] if q else ALL):
            for x in lists(ALL):
                yield ["slice", "pyomo", top, [[e, "z"]], x, ["True"]]
                if top == "True" or not q:
                    yield ["slice", "gurobi", top, [[e, "w"]], x, ["True", "pn"][:1]]
                    yield ["slice", "pyomo", top, [[e, "w"]], x, ["pn", "pnd"]]
        if not q:
            for es in itertools.product(ALL, repeat=3):
                yield ["ge", "gurobi", top, [[e, "x"] for e in es], ["True"], ["True"]]
                yield ["con", "pyomo", top, [[e, ""] for e in es], ["True"], ["True"]]
    # an equation that gives no expression at a selected element: error for constraints, empty for expressions
    for top in ALL:
        for e1, e2 in itertools.product(ALL, repeat=2):
            for be in ("pyomo", "gurobi"):
                for kind in ("con", "ge"):
                    yield ["nan", be, kind, top, e1, e2]
    for conds in [list(c) for n in (1, 2, 3) for c in itertools.product(SCALAR, repeat=n)]:
        for be in ("pyomo", "gurobi"):
            yield ["obj", be, conds]


_M = {}


def backend(which):
    if which not in _M:
        _M[which] = tiny.model(backend=which)
    return _M[which].backend


XV, YV, ZV = [10, 20], [1, 2], ["x", "y"]
# pnd2[d=x] is 6 at node a else default 2; pnd2[d=y] is -1 at node b else default 2
PND2 = {("x", "a"): 6, ("y", "b"): -1}


def component(case):
    fam, be, top, eqs, x, y = case
    d = {"foreach": ["nodes", "techs"], "where": top, "equations": []}
    for i, (c, use) in enumerate(eqs):
        terms = "".join({"x": " + $x", "y": " + $y", "z": " + 10000 * pnd2[d=$z]", "w": " + $w"}[u] for u in use)
        expr = f"{1000 * (i + 1)}{terms}"
        d["equations"].append({"where": c, "expression": f"v0 == {expr}" if fam == "con" else f"0 * v0 + {expr}"})
    used = "".join(u for _, u in eqs)
    sub = {}
    if "x" in used:
        sub["x"] = [{"where": c, "expression": str(v)} for c, v in zip(x, XV)]
    if "y" in used:
        sub["y"] = [{"where": c, "expression": str(v)} for c, v in zip(y, YV)]
    if "w" in used:
        sub["w"] = [{"where": c, "expression": f"{v} + 10000 * pnd2[d=$z]"} for c, v in zip(y, YV)]
    if sub:
        d["sub_expressions"] = sub
    if "z" in used or "w" in used:
        d["slices"] = {"z": [{"where": c, "expression": v} for c, v in zip(x, ZV)]}
    return d


def reference(case):
    """Per element the list of values of the combinations that apply."""
    fam, be, top, eqs, x, y = case
    out = {}
    for el in EL:
        vals = []
        if el in EXIST and el in CONDS[top]:
            for i, (c, use) in enumerate(eqs):
                if el not in CONDS[c]:
                    continue
                opts = []
                for u in use:
                    if u == "x":
                        opts.append([v for cc, v in zip(x, XV) if el in CONDS[cc]])
                    if u == "y":
                        opts.append([v for cc, v in zip(y, YV) if el in CONDS[cc]])
                    if u == "w":
                        opts.append([v for cc, v in zip(y, YV) if el in CONDS[cc]])
                    if u in "zw":
                        opts.append([10000 * PND2.get((v, el[0]), 2) for cc, v in zip(x, ZV) if el in CONDS[cc]])
                for combo in itertools.product(*opts):
                    vals.append(1000 * (i + 1) + sum(combo))
        out[el] = vals
    return out


def num(x):
    try:
        return None if x is None or math.isnan(x) else float(x)
    except TypeError:
        pass
    return x


def built(b, be, kind, name):
    """Value per element: the constant of the expression, or the right-hand side of the equality."""
    out = dict.fromkeys(EL)
    if kind == "con":
        da = b.get_constraint(name)
        if be == "gurobi":
            b._instance.update()
    else:
        da = b.get_global_expression(name)
    if not da.dims:
        return out
    for n, t in EL:
        o = da.sel(nodes=n, techs=t).item()
        if isinstance(o, float) and math.isnan(o):
            continue
        if be == "gurobi":
            out[n, t] = float(o.RHS) if kind == "con" else (o if isinstance(o, (int, float)) else o.getConstant() if hasattr(o, "getConstant") else o.getValue())
        else:
            import pyomo.kernel as pmo

            if kind == "con":
                # v0 is fixed to 0 for the evaluation: lb - body
                b_ = pmo.value(o.body)
                out[n, t] = float(pmo.value(o.rhs if o.equality else o.ub)) - b_
            else:
                out[n, t] = float(pmo.value(o))
    return out


def run_case(case, res):
    fam, be = case[:2]
    b = backend(be)
    if be == "pyomo":
        b.variables["v0"].item().set_value(0)
    if fam == "obj":
        return run_obj(case, res, b)
    res.evaluations += 1
    if fam == "nan":
        _, _, kind, top, e1, e2 = case
        # the first equation (one side of it for constraints) has no value where `pn` is missing (node b)
        rhs = ["1000 + pn", "2000"]
        d = {"foreach": ["nodes", "techs"], "where": top, "equations": [
            {"where": e, "expression": f"v0 == {r}" if kind == "con" else r} for e, r in zip((e1, e2), rhs)]}
        want, err = {}, False
        for el in EL:
            on = [el in EXIST and el in CONDS[top] and el in CONDS[e] for e in (e1, e2)]
            if on[0] and el[0] == "b":
                if on[1]:
                    res.counts["unspecified: overlap with an empty expression"] += 1
                    return
                err = True
                want[el] = []
            else:
                want[el] = [v for v, o in zip((1001, 2000), on) if o]
    else:
        kind = "con" if fam == "con" else "ge"
        d = component(case)
        want, err = reference(case), False
    overlap = any(len(v) > 1 for v in want.values())
    name, ctype = ("c7", "constraints") if kind == "con" else ("g7", "global_expressions")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            (b.add_constraint if kind == "con" else b.add_global_expression)(name, d)
        except BackendError as e:
            b.delete_component(name, ctype)
            if not (overlap or err):
                res.fail(f"refused:{case}", f"refused although exactly one equation applies everywhere: {str(e)[:200]} [{d}]", case)
            else:
                res.nontrivial += 1
                res.outcome(("error", overlap))
            return
        try:
            if overlap or err:
                res.fail(f"accepted:{case}", f"accepted although {'two alternatives apply' if overlap else 'an equation gives no expression'} at {[k for k, v in want.items() if len(v) > 1 or err]} [{d}]", case)
                return
            got = built(b, be, kind, name)
        finally:
            b.delete_component(name, ctype)
    for el in EL:
        w = want[el][0] if want[el] else None
        g = got[el]
        if (w is None) != (g is None) or (w is not None and abs(g - w) > 1e-9):
            res.fail(f"value:{case}", f"at {el} the component holds {g}, the applicable equation gives {w} [{d}]", case)
            return
    if len({tuple(v) for v in want.values()}) > 1:
        res.nontrivial += 1
    res.outcome(sorted(want.items()))
    if res.sample is None:
        res.sample = {"case": case, "values": {str(k): v for k, v in want.items()}}


def run_obj(case, res, b):
    _, be, conds = case
    res.evaluations += 1
    on = [i for i, c in enumerate(conds) if SCALAR[c]]
    d = {"sense": "minimise", "equations": [{"where": c, "expression": f"v0 + {i + 1}"} for i, c in enumerate(conds)]}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            b.add_objective("o7", d)
        except BackendError:
            b.delete_component("o7", "objectives")
            if len(on) <= 1:
                res.fail(f"refused:{case}", f"objective refused although one equation applies [{d}]", case)
            res.nontrivial += 1
            return
        try:
            if len(on) > 1:
                res.fail(f"accepted:{case}", f"objective accepted although {len(on)} equations apply [{d}]", case)
                return
            o = b.objectives["o7"].item()
            if be == "pyomo":
                import pyomo.kernel as pmo

                got = None if isinstance(o, float) else float(pmo.value(o.expr)) - 1
            else:
                got = None if isinstance(o, float) else float(o.getConstant()) - 1
        finally:
            b.delete_component("o7", "objectives")
    want = on[0] if on else None
    if want != got:
        res.fail(f"value:{case}", f"objective holds equation {got}, {want} applies [{d}]", case)
    res.nontrivial += len(conds) > 1
    res.outcome(want)
