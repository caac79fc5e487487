"""C04: applied math is the ordered overlay of the selected math files.

Reference: plain-tree overlay of the YAML files.  Every ordered selection of extra maths within the bound, in every
mode, with and without a math dictionary, is initialised through the public reader and compared attribute by attribute;
so is every overlay of two layers over an attribute lattice, and every change of selection when a saved model is loaded.
"""
import copy
import itertools
import math
import pathlib
import tempfile
import warnings

import yaml

import mc.fast  # noqa: F401
import calliope
from calliope.attrdict import AttrDict
from calliope.exceptions import ModelError
from calliope.preprocess import model_math
from calliope.schemas import math_schema
from pydantic import ValidationError

PROPERTY, LEVEL = "C04", "model_checking"
RULE = "every ordered selection of extra maths x mode x math dictionary; every pair of overlays of the attribute lattice; every re-selection on load"
BOUNDS = {"quick": "5 extra maths, ordered selections up to 3 (2 with a math dictionary), 3 modes, 4 math dictionaries, 2 layers x 3 options x 4 attributes, 26 x 6 re-selections",
          "thorough": "ordered selections up to 4 with every math dictionary, 2 layers x 3 options x 5 attributes"}
CHUNK = 6
DIR = pathlib.Path(__file__).parent / "data" / "c04"
NAMES = ["A", "B", "C", "D", "E"]
MODES = ["base", "operate", "spores"]
FILES = {n: yaml.safe_load((DIR / f"{n}.yaml").read_text()) for n in ["base", "operate", "spores"] + NAMES}
DICTS = [
    {},
    {"A": {"constraints": {"c1": {"where": "not pm", "title": "dict A"}}, "variables": {"va": {"bounds": {"max": 4}}}}},
    {"base": {"variables": {"vn": {"bounds": {"max": 7}}}, "constraints": {"c3": {"equations": [{"expression": "v0 >= 0"}]}}}, "C": {"variables": {"v0": {"title": "dict C"}}}},
    {"operate": {"constraints": {"c1": {"title": "dict op"}}}, "N": {"parameters": {"pn": {"default": 5}}, "global_expressions": {"ge1": {"active": False}, "ge2": {"equations": [{"expression": "vn"}]}}}},
]
GROUPS = list(math_schema.CalliopeBuildMath.model_fields)


def sels(n, names=NAMES):
    return [list(p) for k in range(n + 1) for p in itertools.permutations(names, k)]


def cases(tier):
    q = tier == "quick"
    for mode in MODES:
        for i, d in enumerate(DICTS):
            for s in sels((3 if i == 0 else 2) if q else 4, NAMES + (["N"] if i == 3 else [])):
                yield ["lib", mode, s, i]
    for s in sels(2):
        for pos in range(len(s) + 1):
            yield ["missing", s[:pos] + ["nowhere"] + s[pos:]]
        for n in s:
            yield ["dup", s + [n]]
    for a in sels(1):
        for b in sels(2):
            yield ["load", a, b]
    opts = 3 if q else 3
    n = 4 if q else 5
    for mode in MODES:
        again = ["base"] + ([mode] if mode != "base" else [])
        for i in range(len(DICTS)):
            for s in sels(1 if q else 2):
                for name in again:
                    for pos in range(len(s) + 1):
                        yield ["lib", mode, s[:pos] + [name] + s[pos:], i]
    for a in itertools.product(range(opts), repeat=n):
        yield ["attr", list(a)]
    for a, b in itertools.product(sels(1) + [["B", "C"], ["A", "D"]], repeat=2):
        yield ["reuse", a, b]


# ------------------------------------------------------------------ reference
def over(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            over(a[k], v)
        elif v is None and isinstance(a.get(k), dict):
            pass
        elif isinstance(v, dict) and not v and k in a:
            pass
        else:
            a[k] = copy.deepcopy(v)
    return a


def ref(mode, extra, extra_dict, files=FILES):
    lib = copy.deepcopy(files)
    over(lib, extra_dict)
    tree = {}
    for n in ["base"] + ([mode] if mode != "base" else []) + extra:
        if n not in lib:
            return None
        over(tree, lib[n])
    return tree


def clash(tree):
    seen = set()
    for g in tree:
        for n, d in (tree[g] or {}).items():
            if d.get("active", True):
                if n in seen:
                    return True
                seen.add(n)
    return False


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b or (a == b and not isinstance(a, bool) and not isinstance(b, bool))


def item_defaults(cls):
    from pydantic_core import PydanticUndefined

    out = {}
    for k, f in cls.model_fields.items():
        d = f.get_default(call_default_factory=True)
        if d is not PydanticUndefined:
            out[k] = d.model_dump() if hasattr(d, "model_dump") else d
    return out


CLS = {g: typ for g, typ in (
    ("dimensions", math_schema.Dimension), ("parameters", math_schema.Parameter), ("lookups", math_schema.Lookup),
    ("variables", math_schema.Variable), ("global_expressions", math_schema.GlobalExpression), ("constraints", math_schema.Constraint),
    ("objectives", math_schema.Objective), ("postprocessed", math_schema.PostprocessedExpression), ("checks", math_schema.Check))}
EXPR = item_defaults(math_schema.ExpressionItem)
DEF = {g: item_defaults(c) for g, c in CLS.items()}


def full(tree):
    """The overlay with the schema's defaults for attributes that no math sets."""
    out = {g: {} for g in GROUPS}
    for g, comps in tree.items():
        for n, d in (comps or {}).items():
            x = over(copy.deepcopy(DEF[g]), d)
            for k in ("equations",):
                if k in x:
                    x[k] = [{**EXPR, **e} for e in x[k]]
            for k in ("sub_expressions", "slices"):
                if k in x:
                    x[k] = {s: [{**EXPR, **e} for e in es] for s, es in x[k].items()}
            out[g][n] = x
    return out


def diff(got, want):
    for g in want:
        if got.get(g, {}).keys() != want[g].keys():
            return f"{g}: {sorted(got.get(g, {}).keys() ^ want[g].keys())}"
        for n in want[g]:
            for k in set(want[g][n]) | set(got[g][n]):
                if not same(got[g][n].get(k, "<none>"), want[g][n].get(k, "<none>")):
                    return f"{g}.{n}.{k}: applied {got[g][n].get(k, '<none>')!r}, overlay gives {want[g][n].get(k, '<none>')!r}"
    return None


def definition(mode, extra):
    paths = {n: str(DIR / f"{n}.yaml") for n in FILES}
    d = {
        "config": {"init": {"name": "c04", "math_paths": paths, "mode": mode, "extra_math": list(extra)}, "build": {"objective": "o1"}},
        "techs": {"s": {"base_tech": "supply", "carrier_out": "e"}, "t": {"base_tech": "demand", "carrier_in": "e"}},
        "nodes": {"a": {"techs": {"s": None, "t": None}}, "b": {"techs": {"s": None}}},
        "data_definitions": {"pn": {"data": [1], "index": [["a"]], "dims": ["nodes"]},
                             "pt": {"data": [0, 1], "index": [["2005-01-01 00:00"], ["2005-01-01 01:00"]], "dims": ["timesteps"]}},
    }
    return d


def read(mode, extra, md=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = definition(mode, extra)
        # `pt` is not a known input of the small math; the time dimension comes in through a known one
        d["data_definitions"]["timestep_weights"] = d["data_definitions"].pop("pt")
        return calliope.read_dict(d, math_dict=copy.deepcopy(md) if md else None)


def expect(res, key, case, fn, tree, what):
    """Run fn and compare its applied math with the reference (None: an error is due)."""
    bad = tree is None or clash(tree)
    try:
        m = fn()
    except (ModelError, ValidationError) as e:
        if not bad:
            res.fail(key, f"{what}: refused although every math exists and no active names clash: {str(e)[:200]}", case)
        else:
            res.outcome(("refused", type(e).__name__))
        return None
    if bad:
        res.fail(key, f"{what}: accepted although {'a math is missing' if tree is None else 'active components share a name'}", case)
        return None
    dump = m.math.build.model_dump() if hasattr(m, "math") else m.model_dump()
    d = diff(dump, full(tree))
    if d:
        res.fail(key, f"{what}: {d}", case)
    res.outcome(repr(sorted(dump.items()))[:20000])
    return m


def run_case(case, res):
    fam = case[0]
    res.states += 1
    res.transitions += 1
    res.traces += 1
    if fam == "lib":
        _, mode, s, i = case
        tree = ref(mode, s, DICTS[i])
        m = expect(res, f"lib:{case}", case, lambda: read(mode, s, DICTS[i]), tree, f"mode {mode}, extra math {s}, math dictionary {i}")
        if m is not None:
            lib = m.math.init.model_dump()
            want = over(copy.deepcopy(FILES), DICTS[i])
            for n in want:
                if not same(lib[n], want[n]):
                    res.fail(f"library:{case}", f"the initialised math '{n}' differs from its file after building {mode}+{s}", case)
            prio = ["base"] + ([mode] if mode != "base" else []) + s
            if list(m.runtime.math_priority) != prio:
                res.fail(f"priority:{case}", f"recorded priority {m.runtime.math_priority}, applied {prio}", case)
            res.sample = {"case": case, "c1": str(tree["constraints"]["c1"])[:150]}
    elif fam == "missing":
        expect(res, f"missing:{case}", case, lambda: read("base", case[1]), None, f"extra math {case[1]}")
    elif fam == "dup":
        expect(res, f"dup:{case}", case, lambda: read("base", case[1]), None, f"repeated extra math {case[1]}")
    elif fam == "load":
        _, a, b = case
        ta, tb = ref("base", a, {}), ref("base", b, {})
        with tempfile.TemporaryDirectory() as tmp:
            p = pathlib.Path(tmp) / "m.nc"
            m = read("base", a)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.to_netcdf(p)
                expect(res, f"load:{case}", case, lambda: calliope.read_netcdf(p, extra_math=list(b)), tb, f"model with {a} loaded with extra math {b}")
                expect(res, f"reload:{case}", case, lambda: calliope.read_netcdf(p), ta, f"model with {a} loaded as saved")
    elif fam == "attr":
        run_attr(case, res)
    elif fam == "reuse":
        _, a, b = case
        files = AttrDict(copy.deepcopy(FILES))
        before = copy.deepcopy(FILES)
        for s in (a, b, a):
            expect(res, f"reuse:{case}:{s}", case, lambda: model_math.build_math(["base"] + s, files, validate=False), ref("base", s, {}), f"math library reused for {s} (sequence {a}, {b}, {a})")
            if not same(files.as_dict(), before):
                res.fail(f"reuse-library:{case}", f"building {s} changed the math library", case)
                return


# layers over: c.where, c.equations, v.bounds (partial), c.active, same name in another group
LAY = [
    [{}, {"constraints": {"c": {"where": "x"}}}, {"constraints": {"c": {"where": "y"}}}],
    [{}, {"constraints": {"c": {"equations": [{"expression": "1>=v"}]}}}, {"constraints": {"c": {"equations": [{"expression": "v==2"}, {"expression": "v==3", "where": "z"}]}}}],
    [{}, {"variables": {"v": {"bounds": {"min": 1}}}}, {"variables": {"v": {"bounds": {"max": 2}, "domain": "integer"}, "c": {"active": False}}}],
    [{}, {"constraints": {"c": {"active": False}}}, {"constraints": {"c": {"active": True}, "d": {"active": False}}}],
    [{}, {"global_expressions": {"c": {"equations": [{"expression": "v"}]}}}, {"global_expressions": {"c": {"equations": [{"expression": "2"}], "active": False}}}],
]
BASE = {"variables": {"v": {"bounds": {"min": 0, "max": 9}}}, "constraints": {"c": {"where": "w", "equations": [{"expression": "v>=0"}]}, "d": {"equations": [{"expression": "v>=1"}]}}}


def run_attr(case, res):
    a = case[1]

    def layer(x):
        t = {}
        for i, o in enumerate(x):
            over(t, LAY[i][o])
        return t

    la = layer(a)
    for b in itertools.product(range(3), repeat=len(a)):
        lb = layer(b)
        files = {"base": BASE, "m1": la, "m2": lb}
        keep = copy.deepcopy(files)
        for over_as_dict in (False, True):
            res.states += 1
            res.transitions += 2
            res.traces += 1
            tree = over(over(copy.deepcopy(BASE), la), lb)
            if over_as_dict:
                fn = lambda: model_math.build_math(["base", "m1"], files, overwrite=lb, validate=False)  # noqa: E731
            else:
                fn = lambda: model_math.build_math(["base", "m1", "m2"], files, validate=False)  # noqa: E731
            expect(res, f"attr:{a}:{b}:{over_as_dict}", case, fn, tree, f"layers {la} then {lb}")
            if not same(files, keep):
                res.fail(f"attr-library:{a}:{b}", "building changed the math library", case)
                return
