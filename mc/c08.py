"""C08: helper functions compute their documented array operation.

Every helper is called on every array of the stated shapes (all patterns of missing entries, all small values, symbolic
entries that record exactly which elements were added) with every argument in range, and compared with a loop over plain
Python dictionaries.  A second family uses the helpers inside expressions on both solver interfaces.
"""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from calliope.backend import helper_functions
from calliope.backend.eval_attrs import EvalAttrs
from calliope.schemas import math_schema
from mc import c06, tiny  # noqa: F401

PROPERTY, LEVEL = "C08", "exploration"
RULE = "distinct (array, arguments) for which the result differs from the argument array"
BOUNDS = {"quick": "1-d arrays up to length 4, 2-d up to 2x3 (all missing patterns, symbolic entries), all shifts in +-(n+1), all windows, all groupings into <=3 groups, all lookup arrays, all 2x2x2 definition matrices",
          "thorough": "1-d up to length 6, 2-d up to 3x3, all groupings of 2-d arrays"}
CHUNK = 1
NAN = float("nan")


class Sym:
    """An entry that remembers which elements it is the sum of."""

    def __init__(self, names):
        self.names = tuple(sorted(names))

    def __add__(self, o):
        if isinstance(o, Sym):
            return Sym(self.names + o.names)
        if o == 0:
            return self
        return NotImplemented

    __radd__ = __add__

    def __eq__(self, o):
        return isinstance(o, Sym) and o.names == self.names

    def __hash__(self):
        return hash(self.names)

    def __repr__(self):
        return "+".join(self.names)


MATH = math_schema.CalliopeBuildMath.model_validate({"dimensions": {
    "d0": {"iterator": "a"}, "d1": {"iterator": "b"}, "g": {"iterator": "g"}, "nodes": {"iterator": "n"}, "techs": {"iterator": "t"}, "carriers": {"iterator": "c"},
    "timesteps": {"dtype": "datetime", "ordered": True, "iterator": "ts"}, "date": {"dtype": "date", "iterator": "da"}, "month": {"dtype": "integer", "iterator": "m"},
    "dayofweek": {"dtype": "integer", "iterator": "w"}, "hour": {"dtype": "integer", "iterator": "h"}, "year": {"dtype": "integer", "iterator": "y"}}})
NAMES = {"d0": ["p", "q", "r", "s", "u", "v"], "d1": ["x", "y", "z"], "nodes": ["n0", "n1", "n2"], "techs": ["t0", "t1", "t2"], "carriers": ["c0", "c1"]}


def helper(kind, name, data=None):
    return helper_functions._registry[kind][name]("array", EvalAttrs(input_data=data if data is not None else xr.Dataset(), math=MATH))


def dim(name, items=()):
    return xr.DataArray(list(items), dims=[name], name=name, coords={name: list(items)}) if len(items) else xr.DataArray(np.nan, name=name)


def build(vals, dims, coords, dtype=object):
    shape = [len(coords[d]) for d in dims]
    a = np.full(shape, np.nan, dtype=dtype)
    for ix in np.ndindex(*shape):
        v = vals.get(tuple(coords[d][i] for d, i in zip(dims, ix)))
        if v is not None:
            a[ix] = v
    return xr.DataArray(a, dims=dims, coords={d: coords[d] for d in dims})


def read(da, dims):
    """Array as dict of present entries, keyed by the coordinates of `dims` in that order."""
    if set(da.dims) != set(dims):
        return f"dimensions {da.dims}, expected {dims}"
    da = da.transpose(*dims)
    out = {}
    for ix in np.ndindex(*da.shape):
        v = da.values[ix] if da.shape else da.item()
        if isinstance(v, float) and math.isnan(v):
            continue
        if isinstance(v, (np.floating, float)) and np.isnan(v):
            continue
        key = tuple(_c(da.coords[d].values[i]) for d, i in zip(da.dims, ix))
        if key in out:
            return f"coordinate {key} appears twice"
        out[key] = v
    return out


def _c(x):
    if isinstance(x, np.datetime64):
        return str(pd.Timestamp(x))
    return x.item() if hasattr(x, "item") else x


def add(vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return None
    t = vs[0]
    for v in vs[1:]:
        t = t + v
    return t


def entries(dims, coords, kinds=("sym",)):
    """All arrays: every pattern of missing entries with symbolic values, and all small numeric values."""
    keys = list(itertools.product(*[coords[d] for d in dims]))
    if "sym" in kinds:
        for mask in itertools.product((0, 1), repeat=len(keys)):
            yield object, {k: Sym(["".join(k)]) for k, m in zip(keys, mask) if m}
    if "num" in kinds:
        for vals in itertools.product((None, 0.0, 1.0, 2.5), repeat=len(keys)):
            yield float, {k: v for k, v in zip(keys, vals) if v is not None}


def shapes(tier):
    q = tier == "quick"
    for n in range(1, 5 if q else 7):
        yield ["d0"], {"d0": NAMES["d0"][:n]}
    for n, m in ((1, 2), (2, 1), (2, 2), (2, 3)) + (() if q else ((3, 2), (3, 3))):
        yield ["d0", "d1"], {"d0": NAMES["d0"][:n], "d1": NAMES["d1"][:m]}


def cases(tier):
    q = tier == "quick"
    for dims, coords in shapes(tier):
        for f in ("sum", "roll", "sum_next_n", "where"):
            yield [f, dims, coords, tier]
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        yield ["group_sum", ["d0"], {"d0": NAMES["d0"][:n]}, ["d0"], tier, "*"]
    for n, m in ((2, 2), (2, 1), (1, 2)) if q else ((2, 2), (2, 3), (3, 2)):
        c = {"d0": NAMES["d0"][:n], "d1": NAMES["d1"][:m]}
        for over in (["d0"], ["d1"], ["d0", "d1"], ["d1", "d0"]):
            for first in (None, "g1", "g2", "g0") if len(over) == 2 else ("*",):
                yield ["group_sum", ["d0", "d1"], c, over, tier, first]
    for start, freq in itertools.product(("2005-01-30 00:00", "2005-12-31 12:00", "2004-02-28 18:00"), ("6h", "1D", "10D") if q else ("1h", "6h", "12h", "1D", "10D")):
        for n in (1, 3, 4, 5) if q else range(1, 8):
            for g in ("date", "month", "dayofweek", "hour", "year"):
                yield ["group_datetime", start, freq, n, g]
    for n in (1, 2, 3):
        yield ["select", ["nodes"], n, 0, tier, None]
    for k in range(9):
        yield ["select", ["nodes", "techs"], 2, 2, tier, k]
    for n in (1, 2, 3, 5):
        yield ["get_val", n]
    for k in range(8):
        yield ["reduce_carrier", k]
    for k in range(16 if q else 16):
        yield ["defined", k]
    yield ["any"]
    for i in range(len(EXPRS)):
        for be in ("pyomo", "gurobi"):
            yield ["expr", be, i]


def check(res, case, what, got, want, arg):
    res.evaluations += 1
    if isinstance(got, xr.DataArray):
        got = read(got, want[0])
    if got != want[1]:
        res.fail(f"{case[0]}:{what}", f"{what} on {arg} gives {got}, expected {want[1]}", case)
        return False
    if want[1] != arg:
        res.nontrivial += 1
    res.outcome((what, sorted(map(str, want[1].items()))))
    if res.sample is None and len(want[1]) > 1:
        res.sample = {"call": what, "array": str(arg)[:200], "result": str(want[1])[:200]}
    return True


def run_case(case, res):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case[0]](case, res)


def run_sum(case, res):
    _, dims, coords, _ = case
    f = helper("expression", "sum")
    for kinds in ("sym", "num") if len(list(itertools.product(*coords.values()))) <= 4 else ("sym",):
        for dtype, vals in entries(dims, coords, (kinds,)):
            da = build(vals, dims, coords, dtype)
            for k in range(1, len(dims) + 1):
                for over in itertools.permutations(dims, k):
                    for extra in ((), ("g",)):
                        o = [dim(d, coords.get(d, ["g1"])) for d in over + extra]
                        arg = o[0] if len(o) == 1 else o
                        keep = [d for d in dims if d not in over]
                        want = {}
                        for key in itertools.product(*[coords[d] for d in keep]):
                            v = add([x for kk, x in vals.items() if all(dict(zip(dims, kk))[d] == y for d, y in zip(keep, key))])
                            if v is not None:
                                want[key] = v
                        if not check(res, case, f"sum(over={over + extra})", f(da, over=arg), (keep, want), vals):
                            return


def run_roll(case, res):
    _, dims, coords, _ = case
    f = helper("expression", "roll")
    for dtype, vals in entries(dims, coords):
        da = build(vals, dims, coords, dtype)
        n = len(coords[dims[0]])
        shifts = [{dims[0]: s} for s in range(-n - 1, n + 2)]
        if len(dims) == 2:
            m = len(coords[dims[1]])
            shifts = [{dims[1]: s} for s in range(-m - 1, m + 2)] + [{dims[0]: s, dims[1]: t} for s in (-1, 1, 2) for t in (-1, 0, 1)]
        for s in shifts:
            want = {}
            for kk, x in vals.items():
                key = []
                for d, c in zip(dims, kk):
                    i = coords[d].index(c)
                    key.append(coords[d][(i + s.get(d, 0)) % len(coords[d])])
                want[tuple(key)] = x
            if not check(res, case, f"roll({s})", f(da, **s), (dims, want), vals):
                return


def run_sum_next_n(case, res):
    _, dims, coords, _ = case
    f = helper("expression", "sum_next_n")
    for dtype, vals in entries(dims, coords):
        da = build(vals, dims, coords, dtype)
        for over in dims:
            n = len(coords[over])
            for N in range(1, n + 2):
                want = {}
                for key in itertools.product(*[coords[d] for d in dims]):
                    i = coords[over].index(key[dims.index(over)])
                    vs = []
                    for j in range(i, min(i + N, n)):
                        k2 = list(key)
                        k2[dims.index(over)] = coords[over][j]
                        vs.append(vals.get(tuple(k2)))
                    v = add(vs)
                    if v is not None:
                        want[key] = v
                if not check(res, case, f"sum_next_n({over}, {N})", f(da, over=dim(over, coords[over]), N=N), (dims, want), vals):
                    return


def run_where(case, res):
    _, dims, coords, _ = case
    f = helper("expression", "where")
    keys = list(itertools.product(*[coords[d] for d in dims]))
    full = {k: Sym(["".join(k)]) for k in keys}
    some = {k: v for i, (k, v) in enumerate(full.items()) if i % 2 == 0}
    for vals in (full, some):
        da = build(vals, dims, coords)
        for cd in [d for k in range(1, len(dims) + 1) for d in itertools.combinations(dims, k)] + [(dims[0], "g")]:
            cc = {**coords, "g": ["g1", "g2"]}
            ck = list(itertools.product(*[cc[d] for d in cd]))
            for dtype, opts in ((bool, (False, True)), (float, (None, 0.0, 2.0)), (object, (None, True))):
                if len(opts) ** len(ck) > 800:
                    continue
                for pat in itertools.product(opts, repeat=len(ck)):
                    cond = dict(zip(ck, pat))
                    if dtype is bool:
                        c = xr.DataArray(np.array(pat, dtype=bool).reshape([len(cc[d]) for d in cd]), dims=cd, coords={d: cc[d] for d in cd})
                    else:
                        c = build(cond, cd, cc, dtype)
                    od = list(dims) + [d for d in cd if d not in dims]
                    want = {}
                    for key in itertools.product(*[cc[d] for d in od]):
                        e = dict(zip(od, key))
                        if cond[tuple(e[d] for d in cd)] and vals.get(tuple(e[d] for d in dims)) is not None:
                            want[key] = vals[tuple(e[d] for d in dims)]
                    if not check(res, case, f"where({cd}, {pat}, {dtype.__name__})", f(da, condition=c), (od, want), vals):
                        return


def run_group_sum(case, res):
    _, dims, coords, over, tier, first = case
    f = helper("expression", "group_sum")
    keys = list(itertools.product(*[coords[d] for d in over]))
    for groups in itertools.product((None, "g1", "g2", "g0"), repeat=len(keys)):
        if first not in ("*", groups[0]):
            continue
        if not any(groups):
            continue  # nothing to group: no documented meaning
        g = dict(zip(keys, groups))
        gda = build(g, over, coords).rename("gr")
        for dtype, vals in entries(dims, coords):
            da = build(vals, dims, coords, dtype)
            keep = [d for d in dims if d not in over]
            want = {}
            for gname in {x for x in groups if x}:
                for key in itertools.product(*[coords[d] for d in keep]):
                    vs = []
                    for kk, x in vals.items():
                        e = dict(zip(dims, kk))
                        if g[tuple(e[d] for d in over)] == gname and all(e[d] == y for d, y in zip(keep, key)):
                            vs.append(x)
                    v = add(vs)
                    if v is not None:
                        want[(*key, gname)] = v
            got = f(da, gda, dim("g"))
            if not check(res, case, f"group_sum(over={over}, {groups})", got, (keep + ["g"], want), vals):
                return
            if sorted(got.g.values.tolist()) != sorted({x for x in groups if x}):
                res.fail(f"group_sum:index:{groups}", f"group_sum gives groups {got.g.values.tolist()} for {groups}", case)


def run_group_datetime(case, res):
    _, start, freq, n, g = case
    f = helper("expression", "group_datetime")
    ts = pd.date_range(start, periods=n, freq=freq)

    def group(t):
        return {"date": lambda: str(t.normalize()), "month": lambda: t.month, "dayofweek": lambda: t.dayofweek, "hour": lambda: t.hour, "year": lambda: t.year}[g]()

    for mask in itertools.product((0, 1), repeat=n):
        for two in (False, True):
            vals = {(t,): Sym([t.strftime("%d%H")]) for t, m in zip(ts, mask) if m}
            da = build(vals, ["timesteps"], {"timesteps": list(ts)})
            if two:
                da = xr.concat([da, da.roll(timesteps=1, roll_coords=False)], dim=pd.Index(["x", "y"], name="d1"))
            want = {}
            for j, c in enumerate("xy" if two else "x"):
                for gr in {group(t) for t in ts}:
                    vs = [vals.get((ts[(i - j) % n],)) for i, t in enumerate(ts) if group(t) == gr]
                    v = add(vs)
                    if v is not None:
                        want[((c, gr) if two else (gr,))] = v
            got = f(da, dim("timesteps", list(ts)), dim(g))
            if not check(res, case, f"group_datetime({freq}, {n}, {g})", got, (["d1", g] if two else [g], want), {str(k[0]): v for k, v in vals.items()}):
                return


def run_select(case, res):
    _, dims, n, m, tier, part = case
    coords = {"nodes": NAMES["nodes"][:n], "techs": NAMES["techs"][:m], "d1": ["x", "y"]}
    keys = list(itertools.product(*[coords[d] for d in dims]))
    lookups = list(itertools.product(*[[None, "zz"] + coords["nodes"]] * len(keys))) if len(dims) == 1 else list(itertools.product([None] + coords["nodes"], repeat=len(keys)))
    if len(dims) == 2:
        tl = list(itertools.product([None] + coords["techs"], repeat=len(keys)))
        combos = [(a, b) for a in lookups[part::9] for b in (tl if tier != "quick" else tl[::5] + tl[-3:])]
    else:
        combos = [(a, None) for a in lookups]
    arrays = []
    for extra in ((), ("d1",)):
        ad = [*dims, *extra]
        ak = list(itertools.product(*[coords[d] for d in ad]))
        fullv = {k: Sym(["".join(k)]) for k in ak}
        arrays.append((ad, fullv))
        arrays.append((ad, {k: v for i, (k, v) in enumerate(fullv.items()) if i}))
    for a, b in combos:
        la = build(dict(zip(keys, a)), dims, coords).rename("la")
        data = xr.Dataset({"la": la})
        kw = {"nodes": la}
        if b is not None:
            if len(dims) == 2 and not any(b):
                continue
            data["lb"] = build(dict(zip(keys, b)), dims, coords)
            kw["techs"] = data["lb"]
        elif len(dims) == 2:
            # one lookup indexed over a dimension that is not looked up: each element keeps its other index
            pass
        valid = [x for x in a if x in coords["nodes"]]
        f = helper("expression", "select_from_lookup_arrays", data)
        for ad, vals in arrays:
            if b is None and len(dims) == 2:
                continue  # lookups must be indexed over exactly the looked-up dimensions
            if not valid or (b is not None and not [x for x in b if x]):
                try:
                    f(build(vals, ad, coords), **kw)
                except IndexError:
                    res.evaluations += 1
                    continue
                res.fail("select:nomatch", f"no lookup value of {a} exists, but no error was raised", case)
                return
            want = {}
            for key in itertools.product(*[coords[d] for d in ad]):
                e = dict(zip(ad, key))
                lk = tuple(e[d] for d in dims)
                i = keys.index(lk)
                if a[i] not in coords["nodes"] or (b is not None and b[i] is None):
                    continue
                src = {**e, "nodes": a[i], **({"techs": b[i]} if b is not None else {})}
                v = vals.get(tuple(src[d] for d in ad))
                if v is not None:
                    want[key] = v
            if not check(res, case, f"select_from_lookup_arrays({a}, {b})", f(build(vals, ad, coords), **kw), (ad, want), vals):
                return


def run_get_val(case, res):
    n = case[1]
    ts = pd.date_range("2005-01-01", periods=n, freq="h")
    for kind in ("expression", "where"):
        f = helper(kind, "get_val_at_index", xr.Dataset(coords={"timesteps": ts, "d0": NAMES["d0"][:n]}))
        for i in range(-n, n):
            for arg in (i, float(i), xr.DataArray(i)):
                res.evaluations += 2
                res.nontrivial += 1
                got = f(timesteps=arg)
                if got.shape != () or pd.Timestamp(got.item() if not isinstance(got.item(), int) else got.values) != ts[i % n]:
                    res.fail(f"get_val:{n}:{i}", f"get_val_at_index(timesteps={i}) of {n} gives {got.values}", case)
                if f(d0=arg).item() != NAMES["d0"][i % n]:
                    res.fail(f"get_val:s:{n}:{i}", f"get_val_at_index(d0={i}) of {n} gives {f(d0=arg).item()}", case)
                res.outcome((n, i))


def run_reduce_carrier(case, res):
    k = case[1]
    coords = {"techs": ["t0", "t1"], "carriers": ["c0", "c1"]}
    dims = ["techs", "carriers"]
    keys = list(itertools.product(*[coords[d] for d in dims]))
    for m_in, m_out in itertools.product(itertools.product((False, True), repeat=4), repeat=2):
        if sum(m_in) % 8 != k % 8 and (sum(x << i for i, x in enumerate(m_in)) % 8) != k:
            continue
        data = xr.Dataset({f"carrier_{n}": xr.DataArray(np.array(m, dtype=bool).reshape(2, 2), dims=dims, coords=coords) for n, m in (("in", m_in), ("out", m_out))})
        f = helper("expression", "reduce_carrier_dim", data)
        for dtype, vals in entries(dims, coords):
            da = build(vals, dims, coords, dtype)
            for way, mm in (("in", m_in), ("out", m_out)):
                want = {}
                for t in coords["techs"]:
                    v = add([vals.get((t, c)) for c in coords["carriers"] if mm[keys.index((t, c))]])
                    if v is not None:
                        want[(t,)] = v
                if not check(res, case, f"reduce_carrier_dim({way}) with {mm}", f(da, way), (["techs"], want), vals):
                    return


def run_any(case, res):
    f = helper("where", "any")
    for n, m in ((1, 1), (2, 2), (3, 2), (2, 3)):
        for pat in itertools.product((False, True), repeat=n * m):
            c = {"d0": NAMES["d0"][:n], "d1": NAMES["d1"][:m]}
            keys = list(itertools.product(c["d0"], c["d1"]))
            v = dict(zip(keys, pat))
            da = xr.DataArray(np.array(pat, dtype=bool).reshape(n, m), dims=["d0", "d1"], coords=c)
            for over in (["d0"], ["d1"], ["d0", "d1"], ["d1", "g"], ["g"]):
                o = [dim(d, c.get(d, ["g1"])) for d in over]
                keep = [d for d in ("d0", "d1") if d not in over]
                want = {key: any(x for kk, x in v.items() if all(dict(zip(("d0", "d1"), kk))[d] == y for d, y in zip(keep, key))) for key in itertools.product(*[c[d] for d in keep])}
                if not check(res, case, f"any(over={over})", f(da, over=o if len(o) > 1 else o[0]), (keep, want), v):
                    return


def run_defined(case, res):
    coords = {"nodes": ["n0", "n1"], "techs": ["t0", "t1"], "carriers": ["c0", "c1"]}
    dims = list(coords)
    keys = list(itertools.product(*coords.values()))
    sub = {d: [[x] for x in c] + [list(c), list(reversed(c))] for d, c in coords.items()}
    for bits in range(256):
        if bits % 16 != case[1]:
            continue
        mat = {k: bool(bits >> i & 1) for i, k in enumerate(keys)}
        data = xr.Dataset({"definition_matrix": xr.DataArray(np.array(list(mat.values())).reshape(2, 2, 2), dims=dims, coords=coords)})
        f = helper("where", "defined", data)
        for within in dims:
            others = [d for d in dims if d != within]
            for ask in [(d,) for d in others] + [tuple(others)]:
                for lists in itertools.product(*[sub[d] for d in ask]):
                    for how in ("any", "all"):
                        want = {}
                        for w in coords[within]:
                            cells = []
                            for combo in itertools.product(*lists):
                                e = {within: w, **dict(zip(ask, combo))}
                                cells.append(any(v for k, v in mat.items() if all(dict(zip(dims, k))[d] == x for d, x in e.items())))
                            want[(w,)] = any(cells) if how == "any" else all(cells)
                        kw = dict(zip(ask, lists))
                        for style in ("list", "single"):
                            if style == "single":
                                if any(len(x) > 1 for x in lists):
                                    continue
                                kw = {d: x[0] for d, x in kw.items()}
                            if not check(res, case, f"defined({kw}, within={within}, how={how})", f(within=dim(within, coords[within]), how=how, **kw), ([within], want), mat):
                                return


# helpers inside expressions: (expression, python form, foreach, where, elements where it applies)
N, T, TSD = ["a", "b"], ["s", "t"], [0, 1, 2]
EXPRS = [
    ("sum(vn, over=nodes)", lambda L, i: sum(L("vn", nodes=n) for n in N), ["techs"], "True"),
    ("sum(vnt, over=techs)", lambda L, i: sum(L("vnt", techs=t) for t in T), ["nodes"], "True"),
    ("sum(vnt, over=[nodes, techs]) - p0", lambda L, i: sum(L("vnt", nodes=n, techs=t) for n in N for t in T) - 2, [], "True"),
    ("sum(vnt * pntd, over=[techs, nodes])", lambda L, i: sum(L("vnt", nodes=n, techs=t) * L("pntd", nodes=n, techs=t) for n in N for t in T), [], "True"),
    ("sum(vn + vts, over=timesteps)", lambda L, i: sum(L("vn") + L("vts", timesteps=t) for t in TSD), ["nodes"], "True"),
    ("vn * sum(pnd2, over=d)", lambda L, i: L("vn") * sum(L("pnd2", d=x) for x in "xyz"), ["nodes"], "True"),
    ("sum(sum(pntd, over=nodes) * vnt, over=techs)", lambda L, i: sum(sum(L("pntd", nodes=n, techs=t) for n in N) * L("vnt", techs=t) for t in T), ["nodes"], "True"),
    ("sum(pts * vts, over=timesteps) / sum(pts, over=timesteps)", lambda L, i: sum(L("pts", timesteps=t) * L("vts", timesteps=t) for t in TSD) / 6, [], "True"),
    ("roll(vts, timesteps=1)", lambda L, i: L("vts", timesteps=(i["timesteps"] - 1) % 3), ["timesteps"], "True"),
    ("roll(vts, timesteps=-1) - vts", lambda L, i: L("vts", timesteps=(i["timesteps"] + 1) % 3) - L("vts"), ["timesteps"], "True"),
    ("roll(pts * vts, timesteps=2) + vn", lambda L, i: L("pts", timesteps=(i["timesteps"] - 2) % 3) * L("vts", timesteps=(i["timesteps"] - 2) % 3) + L("vn"), ["nodes", "timesteps"], "True"),
    ("vts - roll(vts, timesteps=1)", lambda L, i: L("vts") - L("vts", timesteps=i["timesteps"] - 1), ["timesteps"], "pts>1"),
    ("roll(vts * pts, timesteps=1) * 2", lambda L, i: 2 * L("vts", timesteps=i["timesteps"] - 1) * L("pts", timesteps=i["timesteps"] - 1), ["timesteps"], "pts>1"),
    ("vts + roll(roll(vts, timesteps=1), timesteps=1)", lambda L, i: L("vts") + L("vts", timesteps=(i["timesteps"] - 2) % 3), ["timesteps"], "True"),
    ("sum(where(vn, pn), over=nodes)", lambda L, i: L("vn", nodes="a"), ["techs"], "True"),
    ("sum(where(vnt, lb), over=[nodes, techs])", lambda L, i: sum(L("vnt", nodes="a", techs=t) for t in T), [], "True"),
    ("where(vn, pn) * 3", lambda L, i: 3 * L("vn"), ["nodes"], "pn"),
    ("select_from_lookup_arrays(vn, nodes=lnn)", lambda L, i: L("vn", nodes="b"), ["nodes"], "lnn"),
    ("vn - 2 * select_from_lookup_arrays(vn, nodes=lnn)", lambda L, i: L("vn") - 2 * L("vn", nodes="b"), ["nodes"], "lnn"),
    ("group_sum(vn, ldn, d)", lambda L, i: L("vn", nodes={"x": "a", "z": "b"}[i["d"]]), ["d"], "[x, z] in d"),
    ("group_sum(vnt * pntd, ldn, d)", lambda L, i: L("vnt", nodes={"x": "a", "z": "b"}[i["d"]]) * L("pntd", nodes={"x": "a", "z": "b"}[i["d"]]), ["d", "techs"], "[x, z] in d"),
    ("group_sum(vn, lnn, nodes)", lambda L, i: L("vn", nodes="a"), ["nodes"], "[b] in nodes"),
    ("sum_next_n(vts, timesteps, 2)", lambda L, i: sum(L("vts", timesteps=t) for t in TSD if i["timesteps"] <= t < i["timesteps"] + 2), ["timesteps"], "True"),
    ("sum_next_n(vts * pts, timesteps, 3) + vn", lambda L, i: sum(L("vts", timesteps=t) * L("pts", timesteps=t) for t in TSD if i["timesteps"] <= t) + L("vn"), ["timesteps", "nodes"], "True"),
    ("sum_next_n(vts, timesteps, 1)", lambda L, i: L("vts"), ["timesteps"], "True"),
    ("vn + vts[timesteps=$first]", lambda L, i: L("vn") + L("vts", timesteps=0), ["nodes"], "True"),
    ("vn + vts[timesteps=$last]", lambda L, i: L("vn") + L("vts", timesteps=2), ["nodes"], "True"),
    ("vts * 2", lambda L, i: L("vts") * 2, ["timesteps"], "timesteps==get_val_at_index(timesteps=1)"),
    ("vts * 2 + 1", lambda L, i: L("vts") * 2 + 1, ["timesteps"], "timesteps<=get_val_at_index(timesteps=-2)"),
]
APPLIES = {
    "True": lambda i: True, "pts>1": lambda i: i["timesteps"] > 0, "pn": lambda i: i["nodes"] == "a", "lnn": lambda i: i["nodes"] == "a", "[x, z] in d": lambda i: i["d"] in "xz",
    "[b] in nodes": lambda i: i["nodes"] == "b", "timesteps==get_val_at_index(timesteps=1)": lambda i: i["timesteps"] == 1, "timesteps<=get_val_at_index(timesteps=-2)": lambda i: i["timesteps"] <= 1,
}
SLICES = {"first": [{"expression": "get_val_at_index(timesteps=0)"}], "last": [{"expression": "get_val_at_index(timesteps=-1)"}]}


def run_expr(case, res):
    _, be, k = case
    ex, fn, fe, where = EXPRS[k]
    m, b = c06.backend(be)
    d = {"foreach": fe, "where": where, "equations": [{"expression": ex}]}
    if "$" in ex:
        d["slices"] = {s: v for s, v in SLICES.items() if "$" + s in ex}
    b.add_global_expression("h8", d)
    try:
        if be == "gurobi":
            b._instance.update()
        els = [i for i in c06.elements(fe)]
        for n, pt in enumerate(c06.POINTS):
            c06.assign(be, m, b, pt)
            L0 = c06.lookup(pt)
            da = b.get_global_expression("h8", as_backend_objs=False, eval_body=True)
            for i in els:
                want = fn(lambda name, **s: L0(i, name, **s), i) if APPLIES[where](i) else None
                at = {k2: (v if k2 != "timesteps" else b.inputs.timesteps.values[v]) for k2, v in i.items()}
                x = da.sel(**at).item() if da.dims else da.item()
                got = None if x is None or (isinstance(x, float) and math.isnan(x)) else float(x)
                if (want is None) != (got is None) or (want is not None and not math.isclose(want, got, rel_tol=1e-7, abs_tol=1e-9)):
                    res.fail(f"expr:{be}:{ex}:{where}", f"`{ex}` (foreach {fe}, where {where}) on {be} at {i} gives {got}, expected {want}", case)
                    return
                res.outcome((ex, str(i), n, want))
            res.evaluations += 1
            res.nontrivial += 1
        res.sample = {"expression": ex, "foreach": fe, "where": where}
    finally:
        b.delete_component("h8", "global_expressions")
        c06.LB.clear()
