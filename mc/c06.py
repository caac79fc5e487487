"""C06: expression strings mean ordinary arithmetic over the model data, element by element.

Every expression of the bounded grammar is built by the real backend and evaluated at several points; the oracle is
Python's own arithmetic on the same string with the scalar data of each index element.
"""
import itertools
import math
import re
import warnings
from calliope.exceptions import BackendError


from mc import tiny
from mc.c05 import CARR, D, DATA, DEFM, K, NODES, TECHS, TS, val

PROPERTY, LEVEL = "C06", "exploration"
RULE = "every expression tree up to the stated number of operators over the leaf alphabet, each with and without brackets and signs, at two points; non-trivial = value differs between elements or points"
BOUNDS = {"quick": "numbers: all chains of 3 operators with signs; data and variables: all chains of 2 operators over 4 leaves in every bracketing, all pairs of 9 leaves; slices, sub-expressions, constraints with each comparison; Gurobi for the linear ones",
          "thorough": "chains of 2 operators over 7 leaves, chains of 3 over 3 leaves in five bracketings, on both backends where admissible"}
CHUNK = 40
BUDGET = {"quick": 420}
OPS = ["+", "-", "*", "/", "**"]
DIMS = {"nodes": NODES, "techs": TECHS, "carriers": CARR, "timesteps": TS, "d": D, "k": K}
POINTS = [
    {"v0": {(): 1.5}, "vn": {("a",): 2.0, ("b",): 3.0}, "vnt": {("a", "s"): 4.0, ("b", "s"): 0.25}, "vts": {(0,): 7.0, (1,): 1.0, (2,): 2.5}},
    {"v0": {(): 3.0}, "vn": {("a",): 0.5, ("b",): 5.0}, "vnt": {("a", "s"): 1.25, ("b", "s"): 2.0}, "vts": {(0,): 0.5, (1,): 6.0, (2,): 4.0}},
]
VDIMS = {"vts": ("timesteps",), "v0": (), "vn": ("nodes",), "vnt": ("nodes", "techs")}
LEAF4 = ["2", "pntd", "vnt"]
LEAF7 = ["2", "p0", "pnd", "pntd", "v0", "vn", "vnt"]
PAIRL = ["3", "0.5", "1e1", "p0", "pnd", "pntd", "v0", "vn", "vnt"]
# (expression, python form over lookups L(name, **selection), foreach)
SLICES = [
    ("pntd[nodes=a]", "L('pntd', nodes='a')", ["nodes", "techs"]), ("pntd[techs=s] * pntd", "L('pntd', techs='s') * L('pntd')", ["nodes", "techs"]),
    ("pntd[nodes=b, techs=s] - vnt[nodes=a, techs=s]", "L('pntd', nodes='b', techs='s') - L('vnt', nodes='a', techs='s')", ["nodes", "techs"]),
    ("vn[nodes=b] + vn", "L('vn', nodes='b') + L('vn')", ["nodes", "techs"]), ("pnd2[d=x] + 1", "L('pnd2', d='x') + 1", ["nodes"]),
    ("pnd2[d=y] * vn - pnk[k=3]", "L('pnd2', d='y') * L('vn') - L('pnk', k=3)", ["nodes"]), ("pnk[k=1] ** 2", "L('pnk', k=1) ** 2", ["nodes"]),
    ("-pnd2[d=z]", "-L('pnd2', d='z')", ["nodes"]), ("pnd2[d=$sl] - pnd", "L('pnd2', d='y') - L('pnd')", ["nodes"]),
    ("pnk[k=$kl] / pnd", "L('pnk', k=2) / L('pnd')", ["nodes"]), ("pts[timesteps=$ts]*vn", "2.0 * L('vn')", ["nodes"]),
    ("sum(pntd[nodes=[a, b]], over=nodes) - vn", "L('pntd', nodes='a') + L('pntd', nodes='b') - L('vn')", ["nodes", "techs"]),
    ("sum(pnd2[d=[x, z]], over=d)", "L('pnd2', d='x') + L('pnd2', d='z')", ["nodes"]), ("sum(pnk[k=$ks], over=k)", "L('pnk', k=1) + L('pnk', k=3)", ["nodes"]),
    ("sum(vnt[techs=$tt], over=techs)", "L('vnt', techs='s') + L('vnt', techs='t')", ["nodes"]),
]
SLICE_DEFS = {"sl": [{"expression": "y"}], "kl": [{"expression": "2"}], "ts": [{"expression": "get_val_at_index(timesteps=1)"}],
              "ks": [{"expression": "[1, 3]"}], "tt": [{"expression": "[s, t]"}]}


def cases(tier):
    q = tier == "quick"
    vals = ["2", "3", "2", "1"]
    for ops in itertools.product(OPS, repeat=3):
        for signs in itertools.product(("", "-"), repeat=4):
            yield ["num", "pyomo", "".join(f"{o}{s}{v}" for o, s, v in zip(("",) + ops, signs, vals)), []]
        a, b, c, d = vals
        o, p, r = ops
        for s in (f"({a}{o}{b}){p}({c}{r}{d})", f"{a} {o} ({b} {p} {c}) {r} {d}", f"-({a}{o}{b}{p}{c}){r}{d}", f"{a}{o}-({b}{p}({c}{r}{d}))", f"({a}{o}{b}{p}{c}){r}(-{d})"):
            yield ["num", "pyomo", s, []]
    for x in PAIRL:
        yield ["one", "pyomo", x, ["nodes", "techs"]]
        yield ["one", "gurobi", "-" + x, ["techs", "nodes"]]
    for x, y in itertools.product(PAIRL, repeat=2):
        for o in OPS:
            for s in ((f"{x} {o} {y}", f"-{x}{o}{y}", f"{x}{o}-{y}", f"-({x}{o}({y}))") if q is False or o in "+*" or x != y else (f"{x} {o} {y}",)):
                yield ["pair", "pyomo", s, ["nodes", "techs"]]
            if linear(x, o, y):
                yield ["pair", "gurobi", f"{x}{o}{y}", ["nodes", "techs"]]
    leaves = LEAF4 if q else LEAF7
    for x, y, z in itertools.product(leaves, repeat=3):
        for o, p in itertools.product(OPS, repeat=2):
            for s in (f"{x} {o} {y} {p} {z}", f"({x} {o} {y}) {p} {z}", f"{x} {o} ({y} {p} {z})"):
                yield ["tri", "pyomo", s, ["nodes", "techs"]]
                if o in "+-" and p in "+-" and s.count("v") and (not q or x != "2"):
                    yield ["tri", "gurobi", s, ["nodes", "techs"]]
    for e, py, fe in SLICES:
        for be in ("pyomo", "gurobi"):
            yield ["slice", be, e, fe, py]
    for be in ("pyomo", "gurobi"):
        for x, y in itertools.product(["2", "pnd", "vn"], repeat=2):
            for o in "+-*":
                if be == "gurobi" and not linear(x, o, y):
                    continue
                for outer in ("$s + 1", "3 * $s", "pnd - $s", "-$s", "$s - $s"):
                    yield ["sub", be, outer, ["nodes"], f"{x} {o} {y}"]
        for lhs, rhs in itertools.product(["v0", "vnt + pnd", "2 * vn - 3", "pntd * vnt", "5", "pnd", "vn - v0"], repeat=2):
            for cmp in ("<=", ">=", "=="):
                if "v" in lhs + rhs and lhs != rhs:
                    yield ["con", be, f"{lhs} {cmp} {rhs}", ["nodes", "techs"]]
    if not q:
        for w in itertools.product(["3", "pnd", "vnt"], repeat=4):
            for ops in itertools.product(OPS, repeat=3):
                a, b, c, d = w
                o, p, r = ops
                for s in (f"{a}{o}{b}{p}{c}{r}{d}", f"({a}{o}{b}){p}({c}{r}{d})", f"{a}{o}({b}{p}{c}){r}{d}", f"(({a}{o}{b}){p}{c}){r}{d}", f"{a}{o}({b}{p}({c}{r}{d}))"):
                    yield ["quad", "pyomo", s, ["nodes", "techs"]]


def linear(x, o, y):
    if o in "+-":
        return True
    if o == "*":
        return not (x[0] == "v" and y[0] == "v")
    return x[0] != "v" and y[0] != "v" or (o == "/" and y[0] != "v")


_M = {}
LB = {}


def backend(which):
    if which not in _M:
        import calliope
        calliope.set_log_verbosity("CRITICAL", include_solver_output=False)
        m = tiny.model(backend=which)
        b = m.backend
        b.verify_pts = []
        _M[which] = (m, b)
    return _M[which]


def pick(da, v, k):
    if VDIMS[v] == ("timesteps",):
        return da.isel(timesteps=k[0]).item()
    return da.sel(**dict(zip(VDIMS[v], k))).item() if k else da.item()


def assign(which, m, b, pt):
    """Give the decision variables the values of a point."""
    import xarray as xr
    if which == "pyomo":
        for v, vals in pt.items():
            da = b.get_variable(v)
            for k, x in vals.items():
                o = pick(da, v, k)
                o.value = x
    else:
        if LB.get("pt") is pt and LB.get("m") is m:
            return
        for v, vals in pt.items():
            da = b.get_variable(v)
            for k, x in vals.items():
                o = pick(da, v, k)
                o.lb = o.ub = x
        b._instance.params.OutputFlag = 0
        b._instance.optimize()
        LB.update(pt=pt, m=m)


NAME = re.compile(r"\b(p0|pntd|pnd|vnt|vn|v0)\b")


def lookup(pt):
    def L(i, name, **sel):
        e = {**i, **sel}
        if name in VDIMS:
            k = tuple(e[d] for d in VDIMS[name])
            return pt[name].get(k, 0.0)  # only vnt has gaps; its default is 0
        return float(val(name, e))
    return L


def ev(py, i, pt):
    L0 = lookup(pt)
    v = eval(re.sub(r"(?<![\w.])(\d+)(?![\w.])", r"\1.0", py), {"L": lambda n, **s: L0(i, n, **s)})  # noqa: S307
    if isinstance(v, complex):
        raise ValueError("complex")
    return v


def to_py(s):
    return NAME.sub(lambda m: f"L('{m.group(1)}')", s)


def elements(fe):
    out = []
    for c in itertools.product(*[DIMS[x] for x in fe]):
        i = dict(zip(fe, c))
        if any(all(i.get(d, e) == e for d, e in zip(("nodes", "techs", "carriers"), t)) for t in DEFM):
            out.append(i)
    return out


def run_case(case, res):
    fam, which, s, fe, *rest = case
    m, b = backend(which)
    if fam == "slice":
        py = rest[0]
    elif fam == "sub":
        py = to_py(s.replace("$s", f"({rest[0]})"))
    else:
        py = to_py(s)
    op = None
    if fam == "con":
        op = next(o for o in ("<=", ">=", "==") if o in py)
        lhs, rhs = py.split(op)
        py = f"({lhs}) - ({rhs})"
    want = {}
    undefined = False
    for n, pt in enumerate(POINTS):
        for i in elements(fe):
            try:
                v = ev(py, i, pt)
                if math.isnan(v) or math.isinf(v):
                    raise ValueError
                want[n, tuple(i.values())] = v
            except (ZeroDivisionError, OverflowError, ValueError):
                undefined = True  # no arithmetic value: nothing to compare at this element
    res.evaluations += 1
    d = {"foreach": fe, "equations": [{"expression": s}]}
    if fam == "sub":
        d["sub_expressions"] = {"s": [{"expression": rest[0]}]}
    if fam == "slice":
        d["slices"] = {k: v for k, v in SLICE_DEFS.items() if "$" + k in s}
    got = {}
    comp = "constraints" if fam == "con" else "global_expressions"
    name = "cx" if fam == "con" else "gx"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if fam == "con":
                b.add_constraint("cx", d)
            else:
                b.add_global_expression("gx", d)
        except BackendError as e:
            # a selected element without any variable on either side is not a constraint: documented error
            flat = any(len({v for (n, k), v in want.items() if k == tuple(i.values())}) <= 1 for i in elements(fe))
            if fam == "con" and flat and "simple boolean" in str(e):
                res.counts["constant constraint rejected"] += 1
                return
            raise
        except (ZeroDivisionError, OverflowError, TypeError):
            if undefined:
                res.counts["undefined"] += 1
                if name in b._dataset:
                    b.delete_component(name, comp)
                return
            raise
        try:
            if which == "gurobi":
                LB.clear() if fam == "con" else None
                b._instance.update()
            for n, pt in enumerate(POINTS):
                try:
                    assign(which, m, b, pt)
                    if fam == "con":
                        got.update({(n, k): v for k, v in slack(b, which, fe, op).items()})
                        continue
                    da = b.get_global_expression("gx", as_backend_objs=False, eval_body=True)
                except (ZeroDivisionError, OverflowError, TypeError):
                    if undefined:
                        res.counts["undefined"] += 1
                        return
                    raise
                if da.dims or not fe:
                    for i in elements(fe):
                        x = da.sel(**{k: v for k, v in i.items() if k in da.dims}).item()
                        got[n, tuple(i.values())] = x
        finally:
            b.delete_component(name, comp)
            if which == "gurobi" and fam == "con":
                LB.clear()
    if op and which == "gurobi":
        # an element without any variable becomes a row that is always or never met: compare that
        for i in elements(fe):
            ks = [(n, tuple(i.values())) for n in range(len(POINTS))]
            if all(k in want for k in ks) and len({want[k] for k in ks}) == 1:
                met = {"<=": want[ks[0]] <= 1e-9, ">=": want[ks[0]] >= -1e-9, "==": abs(want[ks[0]]) <= 1e-9}[op]
                if MET.get(tuple(i.values())) is met:
                    got.update({k: want[k] for k in ks})
                    res.counts["constant rows on gurobi"] += 1
    if op == "==":  # an equality may be written from either side
        for i in elements(fe):
            ks = [(n, tuple(i.values())) for n in range(len(POINTS))]
            if all(got.get(k) is not None and k in want for k in ks) and all(math.isclose(-got[k], want[k], rel_tol=1e-7, abs_tol=1e-9) for k in ks):
                got.update({k: -got[k] for k in ks})
    for k, v in want.items():
        x = got.get(k)
        try:
            ok = x is not None and math.isclose(float(x), v, rel_tol=1e-7, abs_tol=1e-9)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            res.fail(f"value:{which}:{fam}:{s}:{rest}", f"`{s}` {rest or ''} on {which} at {k[1]} (point {k[0]}) gives {x}, arithmetic gives {v}", case)
            break
    if len(set(round(v, 9) for v in want.values())) > 1 or (fam == "num" and want):
        res.nontrivial += 1
    res.outcome((s, sorted(want.values())))
    if res.sample is None:
        res.sample = {"case": case, "value": {str(k): v for k, v in list(want.items())[:3]}}


MET = {}


def slack(b, which, fe, op):
    """Signed residual lhs - rhs of the constraint at the current point, per element."""
    out = {}
    if which == "gurobi":
        objs = b.get_constraint("cx")
    else:
        ds = b.get_constraint("cx", as_backend_objs=False, eval_body=True)
    for i in elements(fe):
        k = tuple(i.values())
        if which == "gurobi":
            c = objs.sel(**i).item()
            b._instance.update()
            row = b._instance.getRow(c)
            # evaluate by hand: variables are fixed to the point through their bounds
            body = row.getConstant() + sum(row.getCoeff(j) * row.getVar(j).lb for j in range(row.size()))
            r = body - c.RHS
            sense = c.Sense
            MET[k] = {"<": r <= 1e-9, ">": r >= -1e-9, "=": abs(r) <= 1e-9}[sense]
            if op == "==":
                out[k] = r if sense == "=" else None
            elif sense == "<":
                out[k] = r if op == "<=" else -r
            elif sense == ">":
                out[k] = r if op == ">=" else -r
            else:
                out[k] = None
        else:
            lb, body, ub = (float(ds[x].sel(**i).item()) if ds[x].sel(**i).item() is not None else None for x in ("lb", "body", "ub"))
            has_l, has_u = lb is not None and math.isfinite(lb), ub is not None and math.isfinite(ub)
            if op == "==":
                out[k] = body - ub if has_l and has_u and lb == ub else None
            elif has_u and not has_l:
                out[k] = body - ub if op == "<=" else ub - body
            elif has_l and not has_u:
                out[k] = body - lb if op == ">=" else lb - body
            else:
                out[k] = None
    return out
