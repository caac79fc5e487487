"""C11: the model life cycle.

Reference model: the state is (built problem variant or None, variant of the last solve or None, options).  Operations
build / build(force) / forced builds that fail in two ways / solve / solve(force) / solves that fail / two backend
edits (one makes the problem infeasible) / switching the objective / saving and reading back / CSV export.

paths    all operation sequences up to a depth; after every step the real model is compared with the reference: which
         calls raise, is_built, is_solved, termination condition, inputs, options, every result (against a fresh model of that
         variant), the problem held by the backend
graph    all states of the reference reached by breadth-first search, every transition taken on the real model
modes    the same for operate and SPORES runs of an energy system, all sequences to a smaller depth
"""
from __future__ import annotations

import copy
import os
import shutil
import tempfile
import warnings

import numpy as np
import xarray as xr

from mc import fast, problem, systems, tiny

fast.memo_grammars()

PROPERTY, LEVEL = "C11", "model_checking"
ASSUMPTIONS = ["the optimum of every variant is unique", "a failed call leaves the state as it was before (the built problem and the options included)"]
BOUNDS = {
    "quick": "small model, Pyomo: all sequences of 3 operations out of 12, every transition of the state graph (12 operations and CSV export); Gurobi: all sequences of 2 out of 15 after build and after build+solve; operate and SPORES runs: all sequences of 3 out of 8 that start with build, solve or reload",
    "thorough": "sequences of 4 (Pyomo), 3 (Gurobi), 4 (modes)",
}
CASE_TIMEOUT = 800
MATH = str(tiny.pathlib.Path(__file__).parent / "data" / "c11" / "base.yaml")

OPS = ["b", "bf", "bx_val", "bx_math", "s", "sf", "sx_solver", "sx_val", "e_cost", "e_inf", "o2", "reload"]
EXTRA = ["csv", "s_zero", "bf_o2"]
START = {"built": None, "solved": None, "opts": ("o1", 0.0)}


def definition(be="pyomo"):
    ts = [f"2005-01-01 {h:02d}:00" for h in range(3)]
    return {
        "config": {"init": {"name": "life", "math_paths": {"base": MATH}}, "build": {"backend": be, "objective": "o1"},
                   "solve": {"solver": "glpk" if be == "pyomo" else "gurobi", "zero_threshold": 0}},
        "techs": {"s": {"base_tech": "supply", "carrier_out": "e"}, "t": {"base_tech": "demand", "carrier_in": "e"}}, "nodes": {"a": {"techs": {"s": None}}, "b": {"techs": {"s": None, "t": None}}},
        "data_definitions": {"p0": 2, "pn": {"data": [1], "index": [["a"]], "dims": ["nodes"]}, "pnd": {"data": [3], "index": [["b"]], "dims": ["nodes"]},
                             "pts": {"data": [1, 0.5, 3], "index": [[t] for t in ts], "dims": ["timesteps"]}},
    }


def fresh(be="pyomo"):
    import calliope

    return calliope.read_dict(definition(be))


# -- the reference -------------------------------------------------------------------------------------------------
# a variant of the problem: (value of p0, infeasible?, active objective)
def ref_step(st, op):
    """-> (raises, new state); the class of error that is required: 'model' for ModelError, 'any', None."""
    built, solved, opts = st["built"], st["solved"], st["opts"]
    new = dict(st)
    has = solved is not None and not solved[1]  # results exist unless the last problem was infeasible
    if op == "b":
        if built is not None:
            return "model", st
        new["built"] = (2, False, opts[0])
    elif op in ("bf", "bf_o2"):
        if op == "bf_o2":
            new["opts"] = ("o2", opts[1])
        new["built"] = (2, False, new["opts"][0])
    elif op.startswith("bx"):
        return "any", st
    elif op in ("s", "sf", "s_zero"):
        if built is None or (op == "s" and has):
            return "model", st
        if op == "s_zero":
            new["opts"] = (opts[0], 1.5)
        new["solved"] = built + (new["opts"][1],)
    elif op.startswith("sx"):
        return ("model" if built is None else "any"), st
    elif op in ("e_cost", "e_inf", "o2"):
        if built is None:
            return "skip", st
        if op == "e_cost":
            new["built"] = (5 if built[0] == 2 else 2, built[1], built[2])
        elif op == "e_inf":
            new["built"] = (built[0], not built[1], built[2])
        else:
            new["built"] = (built[0], built[1], "o2")
            new["opts"] = ("o2", opts[1])
    elif op == "reload":
        new["built"] = None
    elif op == "csv":
        pass
    return None, new


# -- the real model ------------------------------------------------------------------------------------------------
def apply(m, op, be):
    """Run one operation; returns the (possibly new) model."""
    b = getattr(m, "backend", None)
    if op == "b":
        m.build()
    elif op == "bf":
        m.build(force=True)
    elif op == "bf_o2":
        m.build(force=True, objective="o2")
    elif op == "bx_val":
        m.build(force=True, backend="nosuch")
    elif op == "bx_math":
        keep = m.math
        try:
            # a formulation that refers to an unknown component
            m.math = m.math.update({"build.constraints.c9": {"foreach": ["nodes"], "equations": [{"expression": "vn >= nosuch"}]}})
            m.build(force=True)
        finally:
            m.math = keep
    elif op == "s":
        m.solve()
    elif op == "sf":
        m.solve(force=True)
    elif op == "s_zero":
        m.solve(force=True, zero_threshold=1.5)
    elif op == "sx_solver":
        m.solve(force=True, **({"solver": "nosuch"} if be == "pyomo" else {"solver_options": {"NoSuchOption": 1}}))
    elif op == "sx_val":
        m.solve(force=True, zero_threshold="high")
    elif op == "e_cost":
        b.update_input("p0", 5 if float(b.get_parameter("p0", as_backend_objs=False)) == 2 else 2)
    elif op == "e_inf":
        cur = b.get_parameter("pts", as_backend_objs=False)
        orig = m.inputs.pts
        b.update_input("pts", orig * 100 if bool((cur == orig).all()) else orig)
    elif op == "o2":
        b.set_objective("o2")
        m.config = m.config.update({"build.objective": "o2"})
    elif op == "reload":
        import calliope

        d = tempfile.mkdtemp(prefix="c11_", dir=os.environ.get("TMPDIR", "/tmp"))
        try:
            m.to_netcdf(os.path.join(d, "m.nc"))
            m = calliope.read_netcdf(os.path.join(d, "m.nc"))
        finally:
            shutil.rmtree(d)
    elif op == "csv":
        d = tempfile.mkdtemp(prefix="c11_", dir=os.environ.get("TMPDIR", "/tmp"))
        try:
            m.to_csv(os.path.join(d, "csv"))
        finally:
            shutil.rmtree(d)
    return m


_expected = {}


def expected(variant, be, zero=0.0):
    """(problem, results, termination condition) of a fresh model of that variant."""
    key = (variant, be, zero)
    if key not in _expected:
        import calliope

        d = definition(be)
        d["data_definitions"]["p0"] = variant[0]
        if variant[1]:
            d["data_definitions"]["pts"]["data"] = [100 * x for x in d["data_definitions"]["pts"]["data"]]
        d["config"]["build"]["objective"] = variant[2]
        m = calliope.read_dict(d)
        m.build()
        p = problem.extract(m.backend)
        m.solve(zero_threshold=zero)
        _expected[key] = (p, m.results, m.runtime.termination_condition)
    return _expected[key]


_inputs = {}


def same_data(a, b):
    if set(a.data_vars) != set(b.data_vars):
        return f"arrays differ: {sorted(set(a.data_vars) ^ set(b.data_vars))}"
    for n in a.data_vars:
        x, y = a[n], b[n]
        if set(x.dims) != set(y.dims) or x.sizes != y.sizes:
            return f"{n}: dimensions {dict(x.sizes)} != {dict(y.sizes)}"
        y = y.transpose(*x.dims)
        for dim in x.dims:
            if list(x[dim].values) != list(y[dim].values):
                return f"{n}: labels of {dim} differ"
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            ok = np.allclose(x.values.astype(float), y.values.astype(float), rtol=1e-6, atol=1e-7, equal_nan=True)
        else:
            ok = bool(((x == y) | (x.isnull() & y.isnull())).all())
        if not ok:
            return f"{n}: {np.asarray(x.values).ravel()[:12].tolist()} != {np.asarray(y.values).ravel()[:12].tolist()}"
    return None


def check(m, st, hist, be, res):
    key = f"{be}:{'/'.join(hist)}"

    def bad(what, msg):
        res.fail(f"{what}:{key}", f"after {' -> '.join(hist)}: {msg}")
        return False

    res.evaluations += 1
    if m.is_built != (st["built"] is not None):
        return bad("built", f"is_built is {m.is_built}")
    if m.is_solved != (st["solved"] is not None):
        return bad("solved", f"is_solved is {m.is_solved}")
    if be not in _inputs:
        _inputs[be] = fresh(be).inputs
    if d := same_data(m.inputs, _inputs[be]):
        return bad("inputs", f"the model inputs changed: {d}")
    got = (m.config.build.objective, m.config.solve.zero_threshold, m.config.build.backend, m.config.solve.solver, dict(m.config.solve.solver_options or {}))
    want = (st["opts"][0], st["opts"][1], be, "glpk" if be == "pyomo" else "gurobi", {})
    if got != want:
        return bad("options", f"options are {got}, expected {want}")
    if "c9" in m.math.build.constraints.root:
        return bad("math", "the math of a failed build was kept")
    if st["solved"] is None:
        if m.results.data_vars or m.runtime.termination_condition is not None:
            return bad("results", "results or a termination condition without a solve")
    else:
        p, r, t = expected(st["solved"][:3], be, st["solved"][3])
        if m.runtime.termination_condition != t:
            return bad("status", f"termination condition {m.runtime.termination_condition}, expected {t}")
        if d := same_data(m.results, r):
            return bad("results", f"results are not those of the last successful solve (variant {st['solved']}): {d}")
    if st["built"] is not None:
        p = expected(st["built"], be)[0]
        if d := problem.diff(problem.extract(m.backend), p):
            return bad("problem", f"the backend does not hold the problem of variant {st['built']}: {d}")
    return True


def clone(m):
    c = copy.copy(m)
    if getattr(m, "backend", None) is not None and hasattr(m, "backend"):
        c.backend = copy.deepcopy(m.backend)
    c.inputs = m.inputs.copy(deep=True)
    c.results = m.results.copy(deep=True)
    return c


def step(m, st, op, hist, be, res):
    """Returns (model, state) or None when the behaviours part."""
    from calliope import exceptions

    raises, new = ref_step(st, op)
    if raises == "skip":
        return None
    res.transitions += 1
    err = None
    try:
        m = apply(m, op, be)
    except Exception as e:
        err = e
    hist = hist + [op]
    key = f"{be}:{'/'.join(hist)}"
    res.outcome((op, type(err).__name__, new["built"], new["solved"]))
    if raises is None and err is not None:
        res.fail(f"raised:{key}", f"after {' -> '.join(hist[:-1])}: {op} raised {type(err).__name__}: {str(err)[:200]}")
        return None
    if raises and err is None:
        res.fail(f"accepted:{key}", f"after {' -> '.join(hist[:-1])}: {op} must be refused")
        return None
    if raises == "model" and not isinstance(err, exceptions.ModelError):
        res.fail(f"error:{key}", f"after {' -> '.join(hist[:-1])}: {op} must raise a ModelError, raised {type(err).__name__}")
        return None
    if not check(m, new, hist, be, res):
        return None
    return m, new


def explore(m, st, hist, depth, ops, be, res):
    res.states += 1
    if depth == 0:
        res.traces += 1
        return
    for op in ops:
        if len(res.violations) > 5:
            return
        if ref_step(st, op)[0] == "skip":
            continue
        c = clone(m)
        nxt = step(c, st, op, hist, be, res)
        if nxt:
            explore(*nxt, hist + [op], depth - 1, ops, be, res)


def replay(hist, be, res):
    m, st, done = fresh(be), dict(START), []
    for op in hist:
        nxt = step(m, st, op, done, be, res)
        if nxt is None:
            return None
        m, st = nxt
        done = done + [op]
    return m, st


# -- cases ---------------------------------------------------------------------------------------------------------
def cases(tier):
    quick = tier == "quick"
    # the long cases first
    for mode in ("operate", "spores") if quick else ("operate", "spores", "base"):
        for a in ("b", "s", "reload") if quick else MODE_OPS:
            yield ("modes", mode, a, 3 if quick else 4)
    yield ("graph", "pyomo", OPS + ["csv"] if quick else OPS + EXTRA)
    d = 3 if quick else 4
    for a in OPS:
        for b in OPS:
            if ref_step(START, a)[0] != "skip":
                yield ("paths", "pyomo", [a, b], d - 2)
    pres = [["b"], ["b", "s"]]
    if not quick:
        pres += [[], ["b", "e_inf", "s"], ["b", "s", "reload", "b"]]
    for pre in pres:
        for a in OPS + EXTRA:
            yield ("gurobi", pre, a, 1 if quick else 2)


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["case_" + case[0]](case, res)


def case_paths(case, res):
    _, be, pre, depth = case
    got = replay(pre, be, res)
    if got:
        explore(*got, list(pre), depth, OPS, be, res)
    if res.sample is None:
        res.sample = {"start": pre, "transitions": res.transitions}


def case_graph(case, res):
    """Breadth-first search of the reference's state graph; every transition from every state."""
    _, be, ops = case
    m = fresh(be)
    seen = {repr(START)}
    todo = [(m, dict(START), [])]
    while todo:
        m, st, hist = todo.pop(0)
        res.states += 1
        for op in ops:
            if ref_step(st, op)[0] == "skip":
                continue
            nxt = step(clone(m), st, op, hist, be, res)
            if nxt is None:
                continue
            if repr(nxt[1]) not in seen:
                seen.add(repr(nxt[1]))
                todo.append((nxt[0], nxt[1], hist + [op]))
        if len(res.violations) > 5:
            return
    res.traces += res.states
    res.counts["graph states"] = len(seen)
    res.sample = {"states of the reference": len(seen), "transitions": res.transitions}


def case_gurobi(case, res):
    """The Gurobi model cannot be copied: every sequence is replayed from the start."""
    _, pre, a, depth = case
    todo = [pre + [a]]
    while todo:
        hist = todo.pop()
        got = replay(hist, "gurobi", res)
        if got is None:
            if res.violations:
                return
            continue
        res.states += 1
        res.traces += 1
        if len(hist) < len(pre) + 1 + depth:
            todo += [hist + [op] for op in OPS + EXTRA if ref_step(got[1], op)[0] != "skip"]


# -- operate and SPORES runs ---------------------------------------------------------------------------------------
MODE_OPS = ["b", "bf", "bx", "s", "sf", "sx", "sx2", "reload"]
TS4 = ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-01 02:00", "2005-01-01 03:00"]


def mode_model(mode):
    def change(d):
        d["config"]["init"]["mode"] = mode
        if mode == "operate":
            d["config"]["build"]["operate"] = {"window": "2h", "horizon": "3h"}
            caps = {"gen": 6, "loc": 4, "line": 6, "bat": 3}
            for t, v in caps.items():
                d["techs"][t]["flow_cap"] = v
            d["techs"]["bat"]["storage_cap"] = 4
        if mode == "spores":
            d["config"]["solve"]["spores"] = {"number": 1, "scoring_algorithm": "integer"}
            d["data_definitions"]["spores_slack"] = 0.3
            d["techs"]["gen"]["spores_score"] = cost0 = None
            del d["techs"]["gen"]["spores_score"], cost0
    ts = TS4 if mode == "operate" else systems.TS

    return systems.load(["bat"], ts=ts, change=change)


def mode_ref(st, op):
    built, solved = st
    if op == "b":
        return ("model", st) if built else (None, (True, solved))
    if op == "bf":
        return None, (True, solved)
    if op == "bx":
        return "any", st
    if op in ("s", "sf"):
        return ("model", st) if not built or (op == "s" and solved) else (None, (built, True))
    if op in ("sx", "sx2"):
        return ("model" if not built else "any"), st
    if op == "reload":
        return None, (False, solved)


class Boom(Exception):
    pass


def mode_apply(m, op):
    if op == "sx2":
        # the solver fails in the middle of the run
        b = m.backend if hasattr(m, "backend") else None
        if b is None:
            m.solve(force=True)
            return m
        cls = type(b)
        orig, n = cls._solve, [0]

        def failing(self, *a, **k):
            n[0] += 1
            if n[0] == (1 if m.config.init.mode == "base" else 2):
                raise Boom("solver failed")
            return orig(self, *a, **k)

        cls._solve = failing
        try:
            m.solve(force=True)
        finally:
            cls._solve = orig
        return m
    if op == "sx":
        m.solve(force=True, solver="nosuch")
        return m
    if op == "bx":
        keep = m.math
        try:
            m.math = m.math.update({"build.constraints.c9": {"foreach": ["nodes"], "equations": [{"expression": "flow_cap >= nosuch"}]}})
            m.build(force=True)
        finally:
            m.math = keep
        return m
    return apply(m, op, "pyomo")


_mode_first = {}


def mode_first(mode):
    if mode not in _mode_first:
        m = mode_model(mode)
        inputs = m.inputs.copy(deep=True)
        m.build()
        cfg = m.config
        m.solve()
        _mode_first[mode] = (inputs, m.results, m.runtime.termination_condition, cfg)
    return _mode_first[mode]


def mode_check(m, st, hist, mode, res):
    key = f"{mode}:{'/'.join(hist)}"

    def bad(what, msg):
        res.fail(f"{what}:{key}", f"{mode} run, after {' -> '.join(hist)}: {msg}")
        return False

    inputs, results, term, cfg = mode_first(mode)
    res.evaluations += 1
    if (m.is_built, m.is_solved) != st:
        return bad("state", f"(is_built, is_solved) = {(m.is_built, m.is_solved)}, expected {st}")
    if d := same_data(m.inputs, inputs):
        return bad("inputs", f"inputs changed: {d}")
    if m.config.model_dump() != cfg.model_dump():
        return bad("options", "options changed")
    if not st[1]:
        if m.results.data_vars or m.runtime.termination_condition is not None:
            return bad("results", "results without a solve")
        return True
    if m.runtime.termination_condition != term:
        return bad("status", f"termination condition {m.runtime.termination_condition}")
    if d := same_data(m.results, results):
        return bad("results", f"results differ from those of a first run: {d}")
    return True


def case_modes(case, res):
    from calliope import exceptions

    _, mode, first, depth = case

    def walk(m, st, hist, left):
        res.states += 1
        if left == 0:
            res.traces += 1
            return
        for op in ([first] if not hist else MODE_OPS):
            if len(res.violations) > 3:
                return
            c = clone(m)
            raises, new = mode_ref(st, op)
            err = None
            res.transitions += 1
            try:
                c = mode_apply(c, op)
            except Exception as e:
                err = e
            h = hist + [op]
            res.outcome((op, type(err).__name__, new))
            if bool(raises) != (err is not None) or (raises == "model" and not isinstance(err, exceptions.ModelError)):
                res.fail(f"raise:{mode}:{'/'.join(h)}", f"{mode} run, after {' -> '.join(hist)}: {op} raised {type(err).__name__ if err else 'nothing'} ({str(err)[:150]}), expected {raises}")
                continue
            if mode_check(c, new, h, mode, res):
                walk(c, new, h, left - 1)

    walk(mode_model(mode), (False, False), [], depth)
