"""C14: saving to and loading from NetCDF.

attrs:  every value of an alphabet of attribute values (and every pair of them) at every place an attribute can be (dataset,
        array, non-index coordinate, index coordinate), nested up to depth 2 in dictionaries.
text:   every string / key of an alphabet of awkward texts in the places of a definition and math where free text is kept.
data:   arrays of every type, with missing, infinite and empty content.
stage:  models of a family of systems and modes at every stage of their life cycle; saved, compared, read, compared, built, compared,
        saved again.
fault:  each write step of a save fails in turn (before and after the data are written; value that cannot be serialised at every place).
"""
from __future__ import annotations

import copy
import itertools
import math
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mc import c13, fast, problem, systems

fast.memo_grammars()

PROPERTY, LEVEL = "C14", "fault_enumeration"
RULE = "attribute, text, data and stage cases: the value read back differs from the default or empty one; fault cases: the fault fired"
ASSUMPTIONS = ["a fault is an exception raised by a write step; the contents of the file after a failed save are not specified",
               "value types that NetCDF attributes cannot hold may be refused with an error"]
BOUNDS = {
    "quick": "about 70 attribute values x 4 places, all ordered pairs of 24 of them; 40 texts x 7 places; 18 arrays; 30 model stages; every write fault of 6 stages",
    "thorough": "all ordered pairs of all values, dictionaries of depth 3, every pair of texts, 25 systems x stages",
}
CASE_TIMEOUT = 400
INF, NAN = math.inf, math.nan
SCALARS = [True, False, None, 0, 1, -7, 1.5, 1e-9, 1e300, INF, -INF, NAN, "", "x", "None", "True", "1", "null", "a b", " lead", "trail ", "é🙂", "a: b", "l1\nl2", "# no", "2005-01-01"]
LISTS = [[], ["a"], ["a", "b"], ["", "b"], [""], ["None"], ["b", "a", "b"], ["é"], set(), {"a"}, {"a", "b"}, {""}]
DICTS = [{}, {"a": 1}, {"a": {"b": 2}}, {"a": {}}, {"a": []}, {"a": [1, 2.5, "x", None, True]}, {"a": [[1], []]}, {"a": [{"b": 1}]}, {"1": "x"}, {"on": 1, "null": 2}] + [{"k": s} for s in SCALARS] + [{"k": {"m": s}} for s in (None, True, "1", INF, "l1\nl2")]
REFUSED = [[1], [None], [1, "a"], {1}, [True], [["a"]], [{"a": 1}]]


def same(a, b):
    """Strict equality: types of bool, None, str, numbers, list, set and dict are told apart."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or (a != a and b != b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and same(a.tolist(), b.tolist())
    return type(a) is type(b) and a == b or isinstance(a, str) and isinstance(b, str) and a == b


def diff_attrs(a, b):
    if set(a) != set(b):
        return f"attributes {sorted(map(str, set(a) ^ set(b)))} only on one side"
    return next((f"attribute {k}: {a[k]!r} became {b[k]!r}" for k in a if not same(a[k], b[k])), None)


def diff_ds(a, b, attrs=True):
    """None if two datasets are the same in names, types, values, labels and attributes."""
    if set(a.variables) != set(b.variables) or set(a.coords) != set(b.coords):
        return f"arrays {sorted(map(str, set(a.variables) ^ set(b.variables)))} / coordinates {sorted(map(str, set(a.coords) ^ set(b.coords)))}"
    for n in a.variables:
        x, y = a[n], b[n]
        if x.dims != y.dims or x.shape != y.shape:
            return f"{n}: {x.dims}{x.shape} became {y.dims}{y.shape}"
        kx, ky = x.dtype.kind, y.dtype.kind
        # objects that are all numbers or booleans, and whole numbers, may come back as floating point numbers
        if kx != ky and not ({kx, ky} <= set("UOT")) and not (kx in "Oi" and ky == "f"):
            return f"{n}: type {x.dtype} became {y.dtype}"
        for u, v in zip(x.values.ravel().tolist(), y.values.ravel().tolist()):
            if not (same(u, v) or (pd.isnull(u) and pd.isnull(v)) or kx == "O" and ky == "f" and isinstance(u, bool) and u == v):
                return f"{n}: value {u!r} became {v!r}"
        # the definition matrix is worked out anew by each model
        if attrs and n != "definition_matrix" and (d := diff_attrs(x.attrs, y.attrs)):
            return f"{n}: {d}"
    return diff_attrs(a.attrs, b.attrs) if attrs else None


def snapshot(m):
    return m.inputs.copy(deep=True), m.results.copy(deep=True), copy.deepcopy(m.dump_all_attrs()), m.is_built, m.is_solved


def deep_attrs(ds):
    """copy(deep=True) does not copy attribute values."""
    ds = ds.copy(deep=True)
    ds.attrs = copy.deepcopy(ds.attrs)
    for v in ds.variables:
        ds[v].attrs = copy.deepcopy(ds[v].attrs)
    return ds


def diff_dump(a, b):
    """Difference of two attribute dumps, as a path, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{k}: only on one side"
            if (d := diff_dump(a[k], b[k])) is not None:
                return f"{k}.{d}"
        return None
    return None if same(a, b) or str(a) == str(b) and isinstance(a, os.PathLike) else f": {a!r} != {b!r}"


# -- cases -------------------------------------------------------------------------------------------------------------
PLACES = ["dataset", "array", "coord", "index"]
TEXTS = ["", "x", " lead", "trail ", "  both  ", "l1\nl2", "l1\n\nl2\n", "\nl1", "tab\tin", "a: b", "a:b", "- a", "# c", "a # c", "~", "null", "None", "true", "yes", "off", "1", "1.0", "1e3", "0x1F", "012", "1_000", "12:30:45",
         "2005-01-01", ".inf", "=", "<<", "*a", "&a", "!x", "%d", "@x", "`x`", "{a: b}", "[a, b]", "'q'", '"q"', "it's", 'say "x"', "back\\slash", "é🙂", "w " * 60, "w" * 120, "two  spaces " * 12, "|", ">", "?", "a,b"]
STAGES = ["init", "built", "solved"]


def cases(tier):
    t = tier == "thorough"
    for place in PLACES:
        for group in ("scalar", "list", "dict", "refused"):
            yield ["attrs", place, group]
    n = 8
    for k in range(n):
        yield ["pairs", k, n, tier]
    for k in range(7):
        yield ["text", k]
    yield ["data"]
    sysl = ["plain", "bat", "milp", "time", "cluster", "tables", "names", "operate", "spores", "infeasible", "shadow"]
    if t:
        sysl += ["f:" + f for f in systems.F]
    for s in sysl:
        for be in ("pyomo", "gurobi") if t or s in ("bat", "milp") else ("pyomo",):
            yield ["stage", s, be]
    for s in ("plain", "bat", "spores", "infeasible", "names", "tables"):
        yield ["fault", s]
    yield ["group-fault"]


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="c14_"))
        try:
            globals()["do_" + case[0].replace("-", "_")](case, res, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def base_ds():
    return xr.Dataset(
        {"v": (("i",), [1.0, NAN]), "w": ((), 3.0)},
        coords={"i": ["a", "b"], "aux": (("i",), [1.0, 2.0])})


def put(ds, place, attrs):
    attrs = copy.deepcopy(attrs)
    if place == "dataset":
        ds.attrs = attrs
    else:
        ds[{"array": "v", "coord": "aux", "index": "i"}[place]].attrs = attrs
    return ds


def roundtrip(ds, path, group="inputs"):
    from calliope import io

    io.save_netcdf(ds, group, "w", path)
    return io.read_netcdf(path)[group]


def check_attrs(attrs, place, tmp, res, key, refused=False):
    ds = put(base_ds(), place, attrs)
    before = deep_attrs(ds)
    res.evaluations += 1
    try:
        out = roundtrip(ds, tmp / "a.nc")
    except Exception as e:
        out = e
    if d := diff_ds(before, ds):
        res.fail(f"kept:{key}", f"saving changes what is in memory ({'failed save' if isinstance(out, Exception) else 'save'} of {attrs!r} at {place}): {d}")
        return
    if isinstance(out, Exception):
        if not refused:
            res.fail(key, f"{attrs!r} at {place} cannot be saved or read: {type(out).__name__}: {str(out)[:200]}")
            return
        # the model can still be saved without the offending value
        for a in attrs:
            (ds if place == "dataset" else ds[{"array": "v", "coord": "aux", "index": "i"}[place]]).attrs.pop(a)
        out = roundtrip(ds, tmp / "a.nc")
        if d := diff_ds(ds, out):
            res.fail(f"later:{key}", f"a save after a failed one is wrong: {d}")
        res.nontrivial += 1
        return
    res.nontrivial += 1
    res.outcome((repr(sorted(map(repr, attrs.values()))), place))
    if d := diff_ds(before, out):
        res.fail(key, f"{attrs!r} at {place}: {d}")
        return
    try:
        io2 = roundtrip(out, tmp / "b.nc")
        if d := diff_ds(before, io2):
            res.fail(f"twice:{key}", f"saved and read twice, {attrs!r} at {place}: {d}")
    except Exception as e:
        res.fail(f"twice:{key}", f"{attrs!r} at {place} read from file cannot be saved: {e!r}")


def do_attrs(case, res, tmp):
    _, place, group = case
    vals = {"scalar": SCALARS, "list": LISTS, "dict": DICTS, "refused": REFUSED}[group]
    for v in vals:
        check_attrs({"foo": v}, place, tmp, res, f"attrs:{place}:{v!r}", refused=group == "refused")
    res.sample = {"place": place, "values": [repr(v) for v in vals[:5]]}


def do_pairs(case, res, tmp):
    _, k, n, tier = case
    few = [True, None, 1.5, "x", "", ["a"], ["a", "b"], [], {"a"}, {"a", "b"}, {}, {"a": 1}, {"a": None}]
    if tier == "thorough":
        few = SCALARS + LISTS + DICTS[:8]
    allp = list(itertools.product(few, repeat=2))
    for v, w in allp[k::n]:
        for place in ("dataset", "array") if tier == "thorough" else ("dataset",):
            check_attrs({"foo": v, "bar": w}, place, tmp, res, f"pairs:{place}:{v!r}:{w!r}")


# -- texts ---------------------------------------------------------------------------------------------------------
def text_case(k, s):
    """A definition with the text at the k-th place that keeps free text; or None if not admissible there."""
    d = c13.definition("pyomo", mode="base")
    ok = s.strip() == s and s and "\n" not in s and "\t" not in s
    if k == 0:
        d["config"]["init"]["name"] = s
    elif k == 1:
        d["techs"]["p"]["name"] = s
    elif k == 2:
        d["math"] = {"extra": {"parameters": {"mine": {"description": s, "default": 0, "unit": s}}}}
        d["config"]["init"]["extra_math"] = ["extra"]
        return d, {"math": d.pop("math")}
    elif k == 3:
        d["data_definitions"]["label"] = {"data": [s, "z"], "index": ["p", "h"], "dims": "techs"}
    elif k == 4:
        d["techs"]["p"]["color"] = s
    elif k == 5:
        d["data_definitions"]["info"] = s
    elif k == 6:
        if not ok:
            return None
        d["overrides"] = {"o": {"techs.p.name": s}}
        d["scenarios"] = {"sc": ["o"]}
    return d


def do_text(case, res, tmp):
    import calliope

    _, k = case
    for s in TEXTS:
        c = text_case(k, s)
        if c is None:
            continue
        extra = {}
        if isinstance(c, tuple):
            c, extra = c
            kw = {"math_dict": extra["math"]["extra"]}
            c["config"]["init"]["extra_math"] = []
        else:
            kw = {}
        if k == 6:
            kw["scenario"] = "sc"
        try:
            m = calliope.read_dict(c, **kw)
        except Exception:
            continue  # not an admissible definition
        res.evaluations += 1
        check_model(m, res, tmp, f"text:{k}:{s[:20]!r}:{len(s)}", rebuild=False)


def do_data(case, res, tmp):
    arr = {
        "f": [1.5, NAN, INF], "i": [1, 2, -3], "b": [True, False, True], "s": ["a", "", "ccc"], "o": np.array(["a", NAN, "c"], dtype=object),
        "ob": np.array([True, NAN, False], dtype=object), "allnan": [NAN] * 3, "big": [1e300, 1e-300, 0.1], "d": pd.date_range("2005", periods=3, freq="h").values,
        "u": ["é", "🙂", "x" * 300], "zero": [0.0, -0.0, 0.0], "i8": np.array([1, 0, -1], dtype="int8"), "f4": np.array([0.1, 2, 3], dtype="float32"),
    }
    for group in ("inputs", "results"):
        for n, v in arr.items():
            for kind in ("array", "grid", "scalar", "empty", "coord", "index"):
                a = np.asarray(v)
                if n in ("o", "ob") and kind == "empty":
                    continue
                if kind == "array":
                    ds = xr.Dataset({"v": (("i",), a)}, coords={"i": [1, 2, 3]})
                elif kind == "grid":
                    ds = xr.Dataset({"v": (("nodes", "techs"), np.array([a, a[::-1]], dtype=a.dtype))}, coords={"nodes": ["x", "y"], "techs": ["q", "r", "s"]})
                elif kind == "scalar":
                    ds = xr.Dataset({"v": ((), a[0])})
                elif kind == "empty":
                    ds = xr.Dataset({"v": (("i",), a[:0])}, coords={"i": np.array([], dtype="float")})
                elif kind == "coord":
                    ds = xr.Dataset({"v": (("i",), [1.0, 2, 3])}, coords={"i": [1, 2, 3], "c": (("i",), a)})
                else:
                    if n in ("o", "ob", "allnan", "zero", "b", "f"):
                        continue
                    ds = xr.Dataset({"v": (("i",), [1.0, 2, 3])}, coords={"i": a})
                before = deep_attrs(ds)
                res.evaluations += 1
                key = f"data:{n}:{kind}"
                try:
                    out = roundtrip(ds, tmp / "d.nc", group)
                except Exception as e:
                    res.fail(key, f"{kind} of {a[:3]} cannot be saved or read: {type(e).__name__}: {str(e)[:200]}")
                    continue
                if d := diff_ds(before, ds) or diff_ds(before, out):
                    res.fail(key, f"{kind}: {d}")
                res.nontrivial += 1
                res.outcome(key)


# -- stages --------------------------------------------------------------------------------------------------------
def models(name, be):
    """(function that makes a fresh model, options of build, options of solve)"""
    import calliope

    def read(d, **kw):
        return lambda: calliope.read_dict(copy.deepcopy(d), **kw)

    if name.startswith("f:"):
        return read(systems.definition([name[2:]], backend=be)), {}, {}
    if name in ("plain", "bat", "milp"):
        return read(systems.definition({"plain": [], "bat": ["bat", "two_costs"], "milp": ["milp_units", "bat"]}[name], backend=be)), {}, {}
    if name == "infeasible":
        d = systems.definition([], backend=be)
        d["data_definitions"]["sink_use_equals"]["data"] = [1, 1, 99]
        return read(d), {"ensure_feasibility": False}, {}
    if name == "shadow":
        return read(systems.definition(["bat"], backend=be)), {}, {"shadow_prices": ["system_balance"], "solver": "glpk" if be == "pyomo" else "gurobi"}
    if name == "operate":
        from mc import c12

        return read(c12.small("full", 4, be)), {"operate": {"window": "2h", "horizon": "2h"}}, {}
    if name == "spores":
        return read(c13.definition(be)), {}, {"spores": {"number": 2}}
    ts = [str(t)[:16] for t in pd.date_range("2005-01-01", periods=48, freq="h")]
    d = systems.definition(["bat"], ts, be)
    e = d["data_definitions"]["sink_use_equals"]
    e["data"] = [1 + (i * 7) % 5 for i in range(48)]
    e["index"] = [["dem", "b", t] for t in ts]
    if name == "time":
        d["config"]["init"] |= {"subset": {"timesteps": ["2005-01-01 06:00", "2005-01-02 05:00"]}, "resample": {"timesteps": "3h"}}
        return read(d), {}, {}
    if name == "cluster":
        d["data_definitions"]["cl"] = {"data": ["2005-01-02", "2005-01-02"], "index": ["2005-01-01", "2005-01-02"], "dims": "datesteps"}
        d["config"]["init"]["time_cluster"] = "cl"
        return read(d), {}, {}
    if name == "tables":
        df = pd.DataFrame({"flow_cap_max": [3.5, math.inf], "note": ["x", "y"]}, index=pd.Index(["gen", "loc"], name="techs"))
        d = systems.definition([], backend=be)
        d["data_tables"] = {"t": {"table": "df", "rows": "techs", "columns": "inputs"}}
        return read(d, data_table_dfs={"df": df.astype(object)}), {}, {}
    if name == "names":
        d = systems.definition(["bat"], backend=be)
        d["nodes"] = {"Knoten_ä": d["nodes"].pop("a"), "b": d["nodes"]["b"], "no": {"techs": {"gen": {"flow_cap_max": 1, "active": False}}}}
        d["techs"]["line"]["link_from"] = "Knoten_ä"
        d["techs"]["gen"]["name"] = "on"
        d["techs"]["bat"] |= {"mine": "1.0", "other": 1, "third": True, "fourth": None}
        d["overrides"] = {"o1": {"techs.gen.flow_cap_max": 7}, "o2": {"techs.gen.mine": "2.0"}}
        d["scenarios"] = {"s": ["o1", "o2"]}
        for par in d["data_definitions"].values():
            if isinstance(par, dict) and "index" in par and isinstance(par["index"], list):
                par["index"] = [["Knoten_ä" if x == "a" else x for x in i] if isinstance(i, list) else i for i in par["index"]]
        return read(d, scenario="s"), {}, {}
    raise KeyError(name)


def check_model(m, res, tmp, key, rebuild=True, build_kw=None):
    """Save, compare, read, compare, build, compare, save again, compare."""
    import calliope

    before = snapshot(m)
    p_before = problem.extract(m.backend) if rebuild and m.is_built else None
    m.to_netcdf(tmp / "m.nc")
    after = snapshot(m)
    for what, x, y in zip(("inputs", "results"), before, after):
        if d := diff_ds(x, y):
            res.fail(f"kept:{key}", f"saving changes the {what} in memory: {d}")
            return None
    if d := diff_dump(before[2], after[2]):
        res.fail(f"kept:{key}", f"saving changes the model: {d}")
        return None
    if p_before is not None and (d := problem.diff(problem.extract(m.backend), p_before)):
        res.fail(f"kept:{key}", f"saving changes the built problem: {d}")
        return None
    try:
        r = calliope.read_netcdf(tmp / "m.nc")
    except Exception as e:
        res.fail(key, f"cannot be read back: {type(e).__name__}: {str(e)[:300]}")
        return None
    for what, x, y in (("inputs", before[0], r.inputs), ("results", before[1], r.results)):
        if d := diff_ds(x, y):
            res.fail(key, f"{what} read back: {d}")
            return None
    a, b = before[2], r.dump_all_attrs()
    for dump in (a, b):
        dump["runtime"]["timings"] = {k: v for k, v in dump["runtime"]["timings"].items() if k in a["runtime"]["timings"]}
    for k in ("init_complete",):
        a["runtime"]["timings"].pop(k, None)
        b["runtime"]["timings"].pop(k, None)
    if d := diff_dump(a, b):
        res.fail(key, f"read back: {d}")
        return None
    if r.is_solved != m.is_solved or r.is_built:
        res.fail(key, f"read back: solved {r.is_solved} (was {m.is_solved}), built {r.is_built}")
        return None
    res.nontrivial += 1
    res.outcome((key, len(r.inputs), len(r.results)))
    if rebuild:
        r.build(**(build_kw or {}))
        if p_before is None:
            m.build(**(build_kw or {}))
            p_before = problem.extract(m.backend)
        if d := problem.diff(problem.extract(r.backend), p_before):
            res.fail(key, f"built after reading back, the problem differs (read != original): {d}")
            return None
    return r


def do_stage(case, res, tmp):
    _, name, be = case
    mk, bkw, skw = models(name, be)
    for stage in STAGES:
        key = f"stage:{name}:{stage}:{be}"
        m = mk()
        if stage != "init":
            m.build(**bkw)
        if stage == "solved":
            m.solve(**skw)
        res.evaluations += 1
        # after a multi-step mode the built problem is that of the last step
        multi = stage == "solved" and name in ("operate", "spores")
        r = check_model(m, res, tmp, key, rebuild=not multi, build_kw=bkw if stage == "init" else {})
        if r is None:
            continue
        r2 = check_model(r, res, tmp, f"again:{key}", rebuild=False)
        if r2 is None:
            continue
        if stage == "solved" and not multi:
            r2.build(force=True)
            r2.solve(force=True)
            if d := c13.same_data(r2.results, m.results):
                res.fail(f"resolve:{key}", f"solved again after reading back: {d}")
    res.sample = {"model": name, "backend": be, "stages": STAGES}


# -- faults --------------------------------------------------------------------------------------------------------
class Fault:
    """The k-th xarray write fails, before or after the data went to disk."""

    def __init__(self, k, late):
        self.k, self.late, self.n = k, late, 0

    def __enter__(self):
        self.orig = xr.Dataset.to_netcdf
        me = self

        def bad(ds, *a, **kw):
            me.n += 1
            if me.n == me.k + 1 and not me.late:
                raise OSError("no space left")
            r = me.orig(ds, *a, **kw)
            if me.n == me.k + 1:
                raise OSError("no space left")
            return r

        xr.Dataset.to_netcdf = bad
        return self

    def __exit__(self, *a):
        xr.Dataset.to_netcdf = self.orig


ATTRS = {"flag": True, "off": False, "nothing": None, "conf": {"a": {"b": None}, "c": [1, 2]}, "one": ["x"], "few": ["x", "y"], "aset": {"x", "y"}, "n": 3, "f": 0.5, "s": "text"}


def do_fault(case, res, tmp):
    import calliope

    _, name = case
    mk, bkw, skw = models(name, "pyomo")
    for stage in ("init", "solved"):
        m = mk()
        if stage == "solved":
            m.build(**bkw)
            m.solve(**skw)
        # attributes of all kinds, as users and plug-ins add them
        first = {}
        for ds in (m.inputs, m.results):
            ds.attrs.update(copy.deepcopy(ATTRS))
            for v in ds.data_vars:  # coordinates are set up anew by each model; the attrs cases cover them
                ds[v].attrs.update(copy.deepcopy(ATTRS))
        before = deep_attrs(m.inputs), deep_attrs(m.results), copy.deepcopy(m.dump_all_attrs())
        k, late = 0, False
        points = [("write", k, late) for k in range(4) for late in (False, True)]
        for place in ("dataset", "first array", "last array", "coord"):
            for grp in ("inputs", "results"):
                points.append(("value", grp, place))
        for pt in points:
            key = f"fault:{name}:{stage}:{pt}"
            holder = None
            failed = False
            if pt[0] == "write":
                with Fault(pt[1], pt[2]):
                    try:
                        m.to_netcdf(tmp / "f.nc")
                    except OSError as e:
                        failed = "no space" in str(e)
                        if not failed:
                            raise
            else:
                ds = getattr(m, pt[1])
                arrays = list(ds.data_vars)
                if pt[2] == "dataset":
                    holder = ds
                elif not arrays:
                    continue
                else:
                    holder = ds[{"first array": arrays[0], "last array": arrays[-1], "coord": list(ds.coords)[-1]}[pt[2]]]
                holder.attrs["zz"] = [1, 2]
                try:
                    m.to_netcdf(tmp / "f.nc")
                except TypeError:
                    failed = True
                if holder.attrs.pop("zz", None) != [1, 2]:
                    res.fail(key, "the attribute that cannot be written was changed")
                    return
            res.evaluations += 1
            if not failed:
                if pt[0] == "write" and pt[1] < 3 or pt[0] == "value":
                    res.fail(key, "the failure of a write step is not reported")
                    return
                continue
            res.nontrivial += 1
            res.outcome((name, stage, pt))
            for what, x, y in (("inputs", before[0], m.inputs), ("results", before[1], m.results)):
                if d := diff_ds(x, y):
                    res.fail(key, f"the failed save changed the {what} in memory: {d}")
                    return
            if d := diff_dump(before[2], m.dump_all_attrs()):
                res.fail(key, f"the failed save changed the model: {d}")
                return
            m.to_netcdf(tmp / "f.nc")
            r = calliope.read_netcdf(tmp / "f.nc")
            for what, x, y in (("inputs", before[0], r.inputs), ("results", before[1], r.results)):
                if d := diff_ds(x, y):
                    res.fail(f"later:{key}", f"the save after a failed one lost {what}: {d}")
                    return
            if r.is_solved != m.is_solved:
                res.fail(f"later:{key}", "solved state lost")
                return


def do_group_fault(case, res, tmp):
    """Partly written or foreign files: missing groups are read as empty, and nothing else is invented."""
    from calliope import io

    for groups in itertools.chain.from_iterable(itertools.combinations(("inputs", "results", "attrs"), n) for n in (1, 2, 3)):
        for order in itertools.permutations(groups):
            path = tmp / ("_".join(order) + ".nc")
            for i, g in enumerate(order):
                ds = put(base_ds(), "dataset", {"g": g, "d": {"x": [1]}}) if g != "attrs" else xr.Dataset(attrs={"g": g, "d": {"x": 1}})
                io.save_netcdf(ds, g, "a" if i else "w", path)
            out = io.read_netcdf(path)
            res.evaluations += 1
            res.nontrivial += 1
            for g in ("inputs", "results", "attrs"):
                want = (put(base_ds(), "dataset", {"g": g, "d": {"x": [1]}}) if g != "attrs" else xr.Dataset(attrs={"g": g, "d": {"x": 1}})) if g in groups else xr.Dataset()
                if d := diff_ds(want, out[g]):
                    res.fail(f"groups:{'+'.join(order)}:{g}", d)
            # extra attributes given to one save are stored, and do not stay in memory
    ds = put(base_ds(), "dataset", {"g": 1})
    io.save_netcdf(ds, "inputs", "w", tmp / "k.nc", extra={"a": None}, flag=True)
    out = io.read_netcdf(tmp / "k.nc")["inputs"]
    if ds.attrs != {"g": 1} or not same(dict(out.attrs), {"g": out.attrs.get("g"), "extra": {"a": None}, "flag": True}):
        res.fail("kwargs", f"extra attributes: in memory {ds.attrs}, in file {out.attrs}")
