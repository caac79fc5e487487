"""C15: tabular data against the equivalent YAML definition.

layout:   a cube of data over up to four dimensions (`inputs` included) laid out in every way over rows, columns and added dimensions
          (every ordered split), complete or with holes, as data frame and as CSV file, numbers and texts.
ops:      every combination of rename, select, drop and add on tables with an extra dimension, against a small interpreter of the
          documented order; whatever that interpreter calls ambiguous or incomplete must be refused.
override: every combination of two (thorough: three) tables and YAML values at technology, node and top level for the same input.
lookup:   technology bases, carriers and links given in tables against the same in YAML; clashes between tables; bad tables.
csv:      all arrays of solved models exported to CSV and read back.
"""
from __future__ import annotations

import itertools
import math
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc import c11, fast, systems, tiny

fast.memo_grammars()

PROPERTY, LEVEL = "C15", "exploration"
RULE = "layout/ops: the table has at least two values; override: at least two sources give a value for the same element; lookup/csv: all"
ASSUMPTIONS = ["texts that pandas reads as missing values in CSV files (such as NA) are not used as labels",
               "renaming a dimension that is then dropped may be refused; two tables giving different carriers for a technology may be combined, overridden or refused",
               "a table may be refused with any error where only the enumeration's own labels are wrong (unknown label to select); where Calliope documents a check, the error must be a model or validation error"]
BOUNDS = {
    "quick": "7 cubes of 2 to 4 dimensions, every ordered row/column/added split, CSV and data frame; 2 extra-dimension places x 144 operation combinations; 36 table pairs x 12 YAML choices; 40 lookup and bad tables; 6 exported models",
    "thorough": "all cubes full and with two hole patterns, with numbers and texts; three tables; every YAML choice; 20 exported models",
}
CASE_TIMEOUT = 300
LABELS = {"techs": ["s", "t"], "nodes": ["a", "b"], "d": ["x", "z"], "k": [1, 2], "timesteps": ["2005-01-01 00:00", "2005-01-01 01:00"], "inputs": ["q1", "q2"],
          "scen": ["u", "v"]}


def base():
    d = tiny.definition()
    d["nodes"] = {"a": {"techs": {"s": None, "t": None}}, "b": {"techs": {"s": None, "t": None}}}
    d["data_definitions"] = {"pts": d["data_definitions"]["pts"]}
    return d


def load(d, dfs=None, path=None):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(d, data_table_dfs=dfs, definition_path=path)


# --- tables ---------------------------------------------------------------------------------------

def frame(entries, rows, cols, names=True):
    """A data frame of the entries [({dim: label}, value)] with the given dimensions on rows and columns."""
    rk = list(dict.fromkeys(tuple(e[d] for d in rows) for e, _ in entries))
    ck = list(dict.fromkeys(tuple(e[d] for d in cols) for e, _ in entries))
    cells = [[np.nan] * len(ck) for _ in rk]
    for e, v in entries:
        cells[rk.index(tuple(e[d] for d in rows))][ck.index(tuple(e[d] for d in cols))] = v

    def axis(keys, dims):
        if not dims:
            return pd.Index(["values"])
        if len(dims) == 1:
            return pd.Index([k[0] for k in keys], name=dims[0] if names else None)
        return pd.MultiIndex.from_tuples(keys, names=dims if names else None)

    return pd.DataFrame(cells, index=axis(rk, rows), columns=axis(ck, cols)).infer_objects()


def csv_text(entries, rows, cols):
    """The same as a CSV file, laid out as in the documentation: names of row dimensions in the last header row."""
    rk = list(dict.fromkeys(tuple(e[d] for d in rows) for e, _ in entries))
    ck = list(dict.fromkeys(tuple(e[d] for d in cols) for e, _ in entries))
    val = {(tuple(e[d] for d in rows), tuple(e[d] for d in cols)): v for e, v in entries}
    lines = []
    n = max(1, len(cols))
    for i in range(n):
        last = i == n - 1
        head = [r if last else "" for r in rows]
        lines.append(head + [str(c[i]) if cols else "values" for c in ck])
    for r in rk:
        lines.append([str(x) for x in r] + ["" if (r, c) not in val else str(val[r, c]) for c in ck])
    return "\n".join(",".join(x) for x in lines) + "\n"


def yaml_definitions(entries, text=False):
    """Equivalent `data_definitions`."""
    out = {}
    for e, v in entries:
        e = dict(e)
        name = e.pop("inputs")
        x = out.setdefault(name, {"data": [], "index": [], "dims": list(e)})
        x["data"].append(v)
        x["index"].append([e[d] for d in x["dims"]])
    for name, x in out.items():
        if not x["dims"]:
            out[name] = x["data"][0]
    return out


def with_table(tabs, entries_of, source, tmp):
    """Load a model with tables: tabs = {name: (spec, entries, rows, cols)}."""
    d = base()
    d["data_tables"], dfs = {}, {}
    for name, (spec, entries, rows, cols, names) in tabs.items():
        if source == "csv":
            p = pathlib.Path(tmp) / f"{name}.csv"
            p.write_text(csv_text(entries, names.get("rows", rows), names.get("cols", cols)) if False else csv_text(*names["file"](entries, rows, cols)))
            d["data_tables"][name] = {"table": str(p), **spec}
        else:
            dfs[name] = frame(*names["file"](entries, rows, cols))
            d["data_tables"][name] = {"table": name, **spec}
    if entries_of is not None:
        entries_of(d)
    return load(d, dfs)


PLAIN = {"file": lambda e, r, c: (e, r, c)}
CUBES = [("inputs", "techs"), ("inputs", "nodes", "techs"), ("inputs", "techs", "d"), ("inputs", "timesteps"), ("inputs", "techs", "timesteps"), ("inputs", "k", "nodes"),
         ("inputs", "nodes", "techs", "d")]


def cube(dims, holes, text):
    combos = list(itertools.product(*(LABELS[d] for d in dims)))
    out = []
    for i, c in enumerate(combos):
        if holes == 1 and i % 3 == 1 or holes == 2 and i % 2 == 0 and i:
            continue
        out.append((dict(zip(dims, c)), f"w{i}" if text else (i + 1) * 1.5))
    if text:  # only lookups that the math declares hold texts
        out = [({**e, "inputs": {"q1": "ls", "q2": "lsd"}[e["inputs"]]}, v) for e, v in out]
    return out


def splits(dims):
    """Every ordered split of dims over rows and columns (not both empty), with at most one of the others added."""
    for perm in itertools.permutations(dims):
        for k in range(len(perm) + 1):
            yield perm[:k], perm[k:]


def layout_cases(tier):
    for dims in CUBES:
        for holes in ((0, 1) if tier == "quick" else (0, 1, 2)):
            for text in ((False, True) if tier == "thorough" or len(dims) == 2 else (False,)):
                if text and "techs" not in dims:
                    continue
                sp = list(splits(dims))
                for lo in range(0, len(sp), 8):
                    if tier == "quick" and len(dims) == 4 and (lo // 8) % 4 != holes:
                        continue
                    yield ("layout", list(dims), holes, text, lo)


_yaml = {}


def yaml_model(entries):
    key = repr(entries)
    if key not in _yaml:
        if len(_yaml) > 200:
            _yaml.clear()
        d = base()
        d["data_definitions"].update(yaml_definitions(entries))
        _yaml[key] = load(d).inputs
    return _yaml[key]


def direct(ds, entries):
    """The values in the model data are exactly the entries (an oracle that does not go through YAML)."""
    want = {}
    for e, v in entries:
        want.setdefault(e["inputs"], {})[frozenset((k, str(x)[:16]) for k, x in e.items() if k != "inputs")] = v
    for name, vals in want.items():
        if name not in ds:
            return f"{name} is missing"
        da = ds[name]
        got = {}
        if not da.dims:
            got[frozenset()] = da.item()
        else:
            s = da.to_series().dropna()
            for i, v in s.items():
                i = i if isinstance(i, tuple) else (i,)
                got[frozenset((k, str(x)[:16]) for k, x in zip(da.dims, i))] = v
        if got != vals:
            return f"{name} holds {got}, expected {vals}"
    return None


def compare(res, key, what, m, entries):
    res.evaluations += 1
    if d := direct(m.inputs, entries):
        res.fail(f"{what}:{key}", f"{key}: {d}")
    elif d := c11.same_data(m.inputs, yaml_model(entries)):
        res.fail(f"yaml-{what}:{key}", f"{key}: table and YAML definition differ: {d}")
    else:
        res.nontrivial += len(entries) > 1
        res.outcome(repr(entries))


def layout_case(case, res, tmp):
    _, dims, holes, text, lo = case
    entries = cube(dims, holes, text)
    for rows, cols in list(splits(dims))[lo : lo + 8]:
        for source in ("csv", "df"):
            spec = {}
            if rows:
                spec["rows"] = list(rows) if len(rows) > 1 else rows[0]
            if cols:
                spec["columns"] = list(cols) if len(cols) > 1 else cols[0]
            key = f"{source}:{'+'.join(rows)}|{'+'.join(cols)}:{holes}{text:d}"
            m = with_table({"tab": (spec, entries, rows, cols, PLAIN)}, None, source, tmp)
            compare(res, key, "layout", m, entries)
            if res.sample is None:
                res.sample = {"table": csv_text(entries, rows, cols), "spec": spec}
        # each single label of a dimension as an added dimension
        for dim in dims:
            if len(dims) < 3 and dim == "inputs" or dim not in rows + cols:
                continue
            r2, c2 = [d for d in rows if d != dim], [d for d in cols if d != dim]
            if not r2 and not c2 or lo % 16:
                continue
            for lab in (LABELS[dim][0], LABELS[dim] if len(r2) != 1 else LABELS[dim][1]):
                if dim == "timesteps" or dim == "k" or text and dim == "inputs":
                    continue  # labels of added dimensions must be single words
                labs = lab if isinstance(lab, list) else [lab]
                part = [({k: v for k, v in e.items() if k != dim}, v) for e, v in entries if e[dim] == LABELS[dim][0]]
                if not part:
                    continue
                full = [({**e, dim: x}, v) for x in labs for e, v in part]
                spec = {"add_dims": {dim: lab}} | ({"rows": r2} if r2 else {}) | ({"columns": c2} if c2 else {})
                m = with_table({"tab": (spec, part, r2, c2, PLAIN)}, None, "df" if holes else "csv", tmp)
                compare(res, f"add:{dim}={lab}:{'+'.join(r2)}|{'+'.join(c2)}:{holes}", "layout", m, full)


# --- operations -----------------------------------------------------------------------------------
SELECTS = [None, {"scen": "u"}, {"scen": ["v"]}, {"scen": ["u", "v"]}, {"nodes": "a"}, {"scen": "v", "nodes": ["b"]}]
DROPS = [None, "scen", ["scen", "nodes"], "nodes"]
ADDS = [None, {"d": "x"}, {"d": ["x", "z"]}, {"nodes": "b"}, {"nodes": ["a", "b"], "d": "z"}, {"inputs": "q2"}]
RENAMES = [None, {"where": "nodes"}, {"where": "nodes", "case": "scen"}]
PLACES = [(("nodes", "scen", "techs"), ("inputs",)), (("techs",), ("scen", "nodes", "inputs")), (("scen", "inputs"), ("techs", "nodes")), (("nodes", "inputs"), ("scen", "techs"))]


def interpret(entries, dims, spec):
    """Documented order: (rename,) select, drop, add.  Returns entries or None if the table is ambiguous or incomplete."""
    e = [dict(x) for x, _ in entries]
    v = [y for _, y in entries]
    dims = list(dims)
    for dim, labs in (spec.get("select") or {}).items():
        if dim not in dims:
            return None
        labs = labs if isinstance(labs, list) else [labs]
        keep = [i for i, x in enumerate(e) if x[dim] in labs]
        e, v = [e[i] for i in keep], [v[i] for i in keep]
    for dim in drop_list(spec):
        if dim not in dims:
            return None
        dims.remove(dim)
        for x in e:
            del x[dim]
    for dim, labs in (spec.get("add_dims") or {}).items():
        if dim in dims:
            return None
        labs = labs if isinstance(labs, list) else [labs]
        dims.append(dim)
        e, v = [x | {dim: lab} for lab in labs for x in e], [y for _ in labs for y in v]
    if "inputs" not in dims or not dims:
        return None
    if len({tuple(sorted(x.items())) for x in e}) < len(e):
        return None
    return list(zip(e, v))


def drop_list(spec):
    drop = spec.get("drop")
    return drop if isinstance(drop, list) else [drop] if drop else []


def ops_cases(tier):
    for pi in range(len(PLACES) if tier == "thorough" else 3):
        for si in range(len(SELECTS)):
            for di in range(len(DROPS)):
                yield ("ops", pi, si, di, tier)


def ops_case(case, res, tmp):
    _, pi, si, di, tier = case
    rows, cols = PLACES[pi]
    entries = cube(("inputs", "nodes", "techs", "scen"), 0, False)
    for (ai, add), (ri, ren) in itertools.product(enumerate(ADDS), enumerate(RENAMES)):
        if tier == "quick" and ri != (ai + si + di) % 3:
            continue
        for source in ("csv", "df"):
            if tier == "quick" and source != ("csv", "df")[(ai + ri) % 2]:
                continue
            spec = {k: v for k, v in (("select", SELECTS[si]), ("drop", DROPS[di]), ("add_dims", add), ("rename_dims", ren)) if v}
            want = interpret(entries, rows + cols, spec)
            back = {v: k for k, v in (ren or {}).items()}

            def file(e, r, c):
                return [({back.get(k, k): v for k, v in x.items()}, y) for x, y in e], [back.get(k, k) for k in r], [back.get(k, k) for k in c]

            if ren and source == "csv" and not set(ren.values()) <= set(rows):
                source = "df"  # the documented CSV layout has no place for the names of column dimensions
            key = f"{source}:{pi}:{spec}"
            spec2 = spec | {"rows": list(rows), "columns": list(cols)}
            try:
                m = with_table({"tab": (spec2, entries, rows, cols, {"file": file})}, None, source, tmp)
            except Exception as ex:
                res.evaluations += 1
                if want is not None and not set((ren or {}).values()) & set(drop_list(spec)):
                    res.fail(f"refused:{key}", f"valid table refused: {key}: {type(ex).__name__} {str(ex)[:200]}")
                elif type(ex).__name__ not in ("ModelError", "ValidationError"):
                    res.fail(f"crash:{key}", f"{key}: {type(ex).__name__} instead of a model error: {str(ex)[:200]}")
                else:
                    res.nontrivial += 1
                continue
            if want is None:
                res.evaluations += 1
                res.fail(f"silent:{key}", f"ambiguous or incomplete table loaded silently: {key}")
            else:
                compare(res, key, "ops", m, want)


# --- overriding -----------------------------------------------------------------------------------
TABS = [None, ("techs", ["s"]), ("techs", ["s", "t"]), ("nt", [("a", "s")]), ("nt", [("a", "s"), ("b", "t")]), ("nt", [("a", "s"), ("a", "t"), ("b", "s"), ("b", "t")])]
TOP = [None, ("nt", [("a", "s")]), ("techs", ["t"])]


def override_cases(tier):
    for a, b in itertools.product(range(len(TABS)), repeat=2):
        for c in range(len(TABS)) if tier == "thorough" else (0, 3):
            yield ("override", a, b, c, tier)


def cover(opt):
    kind, els = opt
    return [(n, t) for n in "ab" for t in els] if kind == "techs" else list(els)


def entries_for(opt, val, name="pnt"):
    kind, els = opt
    if kind == "techs":
        return [({"inputs": name, "techs": t}, val + i) for i, t in enumerate(els)]
    return [({"inputs": name, "nodes": n, "techs": t}, val + i) for i, (n, t) in enumerate(els)]


def override_case(case, res, tmp):
    _, a, b, c, tier = case
    for (ts, nas, nbt), top in itertools.product(itertools.product((0, 1), repeat=3), range(len(TOP))):
        if tier == "quick" and (ts + nas + nbt + top + a + b) % 2:
            continue
        sources, tabs = [], {}
        for name, opt, val in (("zz", TABS[a], 10), ("mm", TABS[b], 20), ("aa", TABS[c], 30)):
            if opt is None:
                continue
            en = entries_for(opt, val)
            rows, cols = [k for k in en[0][0] if k != "inputs"], ["inputs"]
            tabs[name] = ({"rows": rows, "columns": cols}, en, rows, cols, PLAIN)
            sources.append({nt: v for e, v in en for nt in ([(e["nodes"], e["techs"])] if "nodes" in e else [("a", e["techs"]), ("b", e["techs"])])})

        def edit(d):
            yaml = {}
            if ts:
                d["techs"]["s"]["pnt"] = 40
                yaml.update({("a", "s"): 40, ("b", "s"): 40})
            if nas:
                d["nodes"]["a"]["techs"]["s"] = {"pnt": 50}
                yaml[("a", "s")] = 50
            if nbt:
                d["nodes"]["b"]["techs"]["t"] = {"pnt": 60}
                yaml[("b", "t")] = 60
            sources.append(yaml)
            if TOP[top]:
                en = entries_for(TOP[top], 70)
                d["data_definitions"]["pnt"] = yaml_definitions(en)["pnt"]
                sources.append({nt: v for e, v in en for nt in ([(e["nodes"], e["techs"])] if "nodes" in e else [("a", e["techs"]), ("b", e["techs"])])})

        m = with_table(tabs, edit, "df", tmp)
        want = {}
        for s in sources:
            want.update(s)
        key = f"{a}{b}{c}:{ts}{nas}{nbt}:{top}"
        res.evaluations += 1
        res.nontrivial += sum(map(len, sources)) > len(want)
        if "pnt" not in m.inputs:
            got = {}
        else:
            da = m.inputs.pnt
            got = {(n, t): da.sel({k: v for k, v in (("nodes", n), ("techs", t)) if k in da.dims}).item() for n in "ab" for t in "st"}
            got = {k: v for k, v in got.items() if v == v}
        if got != want:
            res.fail(f"override:{key}", f"tables {TABS[a]}, {TABS[b]}, {TABS[c]}, YAML at tech/node/node {ts, nas, nbt}, top level {TOP[top]}: got {got}, expected {want}")
        res.outcome(repr(sorted(want.items())))


# --- lookups and bad tables --------------------------------------------------------------------------

def lookup_cases(tier):
    return [("lookup", n) for n in LOOKUP] + [("bad", n) for n in BAD] + [("clash", i, j) for i in range(4) for j in range(6)] + [("frames", i) for i in range(4)]


def E(dims, *vals):
    return [(dict(zip(dims.split(), k.split())), v) for k, v in vals]


# name -> (entries, rows, columns, spec, change of the YAML definition for the table version, the same for the YAML version)
LOOKUP = {
    "base_tech": (E("techs inputs", ("s base_tech", "supply"), ("t base_tech", "conversion")), ["techs"], ["inputs"], {},
                  lambda d: [d["techs"][t].pop("base_tech") for t in "st"], None),
    "base_and_carriers": (E("techs carriers inputs", ("s e carrier_out", 1), ("t e carrier_in", 1), ("t h carrier_out", 1)), ["techs", "carriers"], ["inputs"], {},
                          lambda d: (d["techs"]["s"].pop("carrier_out"), [d["techs"]["t"].pop(f"carrier_{x}") for x in ("in", "out")]), None),
    "two_carriers": (E("techs carriers inputs", ("t e carrier_out", 1), ("t h carrier_out", 1)), ["techs", "carriers"], ["inputs"], {},
                     lambda d: d["techs"]["t"].pop("carrier_out"), lambda d: d["techs"]["t"].update(carrier_out=["e", "h"])),
    "yaml_carrier_wins": (E("techs carriers inputs", ("t e carrier_out", 1)), ["techs", "carriers"], ["inputs"], {}, None, None),
    "techs_only_in_table": (E("techs inputs", ("n base_tech", "supply"), ("n name", "new"), ("s name", "old")), ["techs"], ["inputs"], {},
                            lambda d: (d["techs"].__setitem__("n", {"carrier_out": "e"}), d["nodes"]["a"]["techs"].__setitem__("n", None)),
                            lambda d: (d["techs"].__setitem__("n", {"base_tech": "supply", "carrier_out": "e", "name": "new"}), d["nodes"]["a"]["techs"].__setitem__("n", None), d["techs"]["s"].__setitem__("name", "old"))),
    "node_tech_inferred": (E("nodes techs inputs", ("a s pnt", 1), ("b t pnt", 2)), ["nodes", "techs"], ["inputs"], {},
                           lambda d: d.__setitem__("nodes", {"a": {"techs": {"t": None}}, "b": {"techs": {"s": None}}}),
                           lambda d: d["data_definitions"].__setitem__("pnt", {"data": [1, 2], "index": [["a", "s"], ["b", "t"]], "dims": ["nodes", "techs"]})),
    "node_inferred": (E("nodes techs inputs", ("n s pnt", 1)), ["nodes", "techs"], ["inputs"], {}, None,
                      lambda d: (d["nodes"].__setitem__("n", {"techs": {"s": None}}), d["data_definitions"].__setitem__("pnt", {"data": 1, "index": [["n", "s"]], "dims": ["nodes", "techs"]}))),
    "node_params": (E("nodes inputs", ("a pn", 3), ("b pn", 4), ("b name", "bee")), ["nodes"], ["inputs"], {}, None,
                    lambda d: (d["nodes"]["a"].__setitem__("pn", 3), d["nodes"]["b"].update(pn=4, name="bee"))),
    "link": (E("techs inputs", ("l base_tech", "transmission"), ("l link_from", "a"), ("l link_to", "b"), ("l pt", 5)), ["techs"], ["inputs"], {},
             lambda d: d["techs"].__setitem__("l", {"carrier_in": "e", "carrier_out": "e"}),
             lambda d: d["techs"].__setitem__("l", {"base_tech": "transmission", "link_from": "a", "link_to": "b", "carrier_in": "e", "carrier_out": "e", "pt": 5})),
    "link_override": (E("techs inputs", ("l base_tech", "transmission"), ("l link_from", "a"), ("l link_to", "b"), ("l pt", 5)), ["techs"], ["inputs"], {},
                      lambda d: d["techs"].__setitem__("l", {"carrier_in": "e", "carrier_out": "e", "pt": 6, "link_from": "b", "link_to": "a"}),
                      lambda d: d["techs"].__setitem__("l", {"base_tech": "transmission", "link_from": "b", "link_to": "a", "carrier_in": "e", "carrier_out": "e", "pt": 6})),
    "lookup_text": (E("techs inputs", ("s ls", "foo"), ("t lsd", "bar")), ["inputs"], ["techs"], {}, None,
                    lambda d: (d["techs"]["s"].__setitem__("ls", "foo"), d["techs"]["t"].__setitem__("lsd", "bar"))),
    "lookup_bool": (E("nodes inputs", ("a lb", True), ("b lb", False)), ["nodes"], ["inputs"], {}, None,
                    lambda d: (d["nodes"]["a"].__setitem__("lb", True), d["nodes"]["b"].__setitem__("lb", False))),
    "bool_among_texts": (E("nodes inputs", ("a lb", True), ("b lb", False), ("a name", "x"), ("b pn", 3)), ["nodes", "inputs"], [], {}, None,
                         lambda d: (d["nodes"]["a"].update(lb=True, name="x"), d["nodes"]["b"].update(lb=False, pn=3))),
    "carrier_matrix": (E("techs carriers inputs", ("s e carrier_out", 1), ("s h carrier_out", 0), ("t e carrier_out", 0), ("t h carrier_out", 1)), ["techs"], ["carriers", "inputs"], {},
                       lambda d: [d["techs"][t].pop("carrier_out") for t in "st"], None),
    "carrier_flags": (E("techs carriers inputs", ("s e carrier_out", True), ("s h carrier_out", False), ("t e carrier_out", False), ("t h carrier_out", True)), ["techs", "carriers"], ["inputs"], {},
                      lambda d: [d["techs"][t].pop("carrier_out") for t in "st"], None),
    **{f"link_one_way_{v}": (E("techs inputs", ("l base_tech", "transmission"), ("l link_from", "a"), ("l link_to", "b"), ("l one_way", v)), ["techs"], ["inputs"], {},
                                 lambda d: d["techs"].__setitem__("l", {"carrier_in": "e", "carrier_out": "e"}),
                                 lambda d, v=v: d["techs"].__setitem__("l", {"base_tech": "transmission", "link_from": "a", "link_to": "b", "carrier_in": "e", "carrier_out": "e", "one_way": v}))
       for v in (True, False)},
    **{f"link_one_way_column_{v}": (E("techs inputs", ("l base_tech", "transmission"), ("l link_from", "a"), ("l link_to", "b"), ("l one_way", v)), ["techs", "inputs"], [], {},
                                    lambda d: d["techs"].__setitem__("l", {"carrier_in": "e", "carrier_out": "e"}),
                                    lambda d, v=v: d["techs"].__setitem__("l", {"base_tech": "transmission", "link_from": "a", "link_to": "b", "carrier_in": "e", "carrier_out": "e", "one_way": v}))
       for v in (True, False)},
    "infinite": (E("techs inputs", ("s pt", math.inf), ("t pt", -math.inf)), ["techs"], ["inputs"], {}, None,
                 lambda d: (d["techs"]["s"].__setitem__("pt", math.inf), d["techs"]["t"].__setitem__("pt", -math.inf))),
    "mixed_types": (E("techs inputs", ("s pt", 5), ("s ls", "foo"), ("t pt", 0), ("t name", "tee")), ["techs", "inputs"], [], {}, None,
                    lambda d: (d["techs"]["s"].update(pt=5, ls="foo"), d["techs"]["t"].update(pt=0, name="tee"))),
    "scalars": (E("inputs", ("p0", 3), ("pz", 4)), ["inputs"], [], {}, None, lambda d: d["data_definitions"].update(p0=3, pz=4)),
    "scalar_added": (E("d", ("x", 3)), ["d"], [], {"select": {"d": "x"}, "add_dims": {"inputs": ["pd"]}}, None,
                     lambda d: d["data_definitions"].update(pd={"data": 3, "index": "x", "dims": "d"})),
}


def bad(name):
    """(definition, data frames) of a table that must be refused."""
    d, dfs = base(), {}
    en = E("techs inputs", ("s pt", 5), ("t pt", 6), ("s q", 7))
    df = frame(en, ["techs"], ["inputs"])
    spec = {"rows": "techs", "columns": "inputs"}
    if name == "no_inputs":
        df, spec = df.rename_axis(columns="d"), {"rows": "techs", "columns": "d"}
    elif name == "no_rows":
        spec = {"columns": "inputs"}
    elif name == "no_columns":
        spec = {"rows": "techs", "add_dims": {"inputs": "pt"}}
    elif name == "no_rows_columns":
        spec = {"add_dims": {"inputs": "pt"}}
    elif name == "too_many_rows":
        spec = {"rows": ["techs", "nodes"], "columns": "inputs"}
    elif name == "too_few_rows":
        df, spec = frame(en, ["techs", "inputs"], []), {"rows": "techs", "add_dims": {"d": "x"}}
    elif name == "wrong_name":
        spec = {"rows": "nodes", "columns": "inputs"}
    elif name == "swapped_names":
        spec = {"rows": "inputs", "columns": "techs"}
    elif name == "dup_dims":
        spec = {"rows": ["techs", "techs"], "columns": "inputs"}
    elif name == "row_and_column":
        spec = {"rows": "techs", "columns": ["techs", "inputs"]}
    elif name == "dup_rows":
        df = pd.concat([df, df.iloc[:1]])
    elif name == "dup_columns":
        df = pd.concat([df, df.iloc[:, :1]], axis=1)
    elif name == "dup_add":
        spec = spec | {"add_dims": {"d": ["x", "x"]}}
    elif name == "add_existing":
        spec = spec | {"add_dims": {"techs": "s"}}
    elif name == "series":
        df = df["pt"]
    elif name == "unknown_df":
        spec = spec | {"table": "nope"}
    elif name == "unknown_file":
        spec = spec | {"table": "nope.csv"}
    elif name == "unknown_option":
        spec = spec | {"foo": 1}
    elif name in ("active", "definition_matrix", "template", "templates"):
        df = frame(E("techs inputs", (f"s {name}", 1)), ["techs"], ["inputs"])
    elif name == "select_unknown_label":
        spec = spec | {"select": {"techs": "nope"}}
    elif name == "select_one_unknown_label":
        spec = spec | {"select": {"techs": ["s", "nope"]}}
    elif name == "select_unknown_dim":
        spec = spec | {"select": {"nodes": "a"}}
    elif name == "select_added_dim":
        spec = spec | {"add_dims": {"d": ["x", "z"]}, "select": {"d": "x"}}
    elif name == "drop_unknown":
        spec = spec | {"drop": "nodes"}
    elif name == "rename_to_unknown":
        spec = spec | {"rename_dims": {"techs": "nodes"}}
    elif name == "drop_all":
        spec = spec | {"drop": ["techs", "inputs"]}
    elif name == "carrier_without_techs":
        df, spec = frame(E("carriers inputs", ("e carrier_in", 1)), ["carriers"], ["inputs"]), {"rows": "carriers", "columns": "inputs"}
    elif name == "carrier_without_carriers":
        df = frame(E("techs inputs", ("s carrier_in", "e")), ["techs"], ["inputs"])
    elif name == "transmission_at_node":
        d["techs"]["l"] = {"base_tech": "transmission", "link_from": "a", "link_to": "b", "carrier_in": "e", "carrier_out": "e"}
        df, spec = frame(E("nodes techs inputs", ("a l pnt", 1)), ["nodes", "techs"], ["inputs"]), {"rows": ["nodes", "techs"], "columns": "inputs"}
    d["data_tables"] = {"tab": {"table": "df", **spec}}
    return d, {"df": df}


BAD = ["no_inputs", "no_rows", "no_columns", "no_rows_columns", "too_many_rows", "too_few_rows", "wrong_name", "swapped_names", "dup_dims", "row_and_column", "dup_rows",
       "dup_columns", "dup_add", "add_existing", "series", "unknown_df", "unknown_file", "unknown_option", "active", "definition_matrix", "template", "templates",
       "select_unknown_label", "select_one_unknown_label", "select_unknown_dim", "select_added_dim", "drop_unknown", "rename_to_unknown", "drop_all", "carrier_without_techs",
       "carrier_without_carriers", "transmission_at_node"]
ANY_ERROR = {"unknown_df", "unknown_file"}


def lookup_case(case, res, tmp):
    entries, rows, cols, spec, edit, ydef = LOOKUP[case[1]]
    d = base()
    if case[1] not in ("node_inferred",):
        pass
    if ydef:
        ydef(d)
    want = load(d).inputs
    for source in ("df", "csv"):
        if case[1] == "lookup_bool" and source == "csv":
            continue
        s = dict(spec) | ({"rows": rows} if rows else {}) | ({"columns": cols} if cols else {})
        m = with_table({"tab": (s, entries, rows, cols, PLAIN)}, edit, source, tmp)
        res.evaluations += 1
        res.nontrivial += 1
        got = m.inputs
        if "one_way" in got and got.one_way.dtype.kind == "O":  # no component of the math: a text stays a text
            got = got.assign(one_way=got.one_way.where(~got.one_way.isin(["True"]), 1.0).where(~got.one_way.isin(["False"]), 0.0))
        dims = {k: sorted(want[k].values.tolist()) for k in ("nodes", "techs", "carriers")}
        if {k: sorted(got[k].values.tolist()) for k in dims} != dims:
            res.fail(f"lookup:{case[1]}", f"{case[1]} ({source}): labels {got.coords} expected {dims}")
        elif x := c11.same_data(got.drop_vars("color").reindex({k: want[k] for k in dims}), want.drop_vars("color")):
            res.fail(f"lookup:{case[1]}", f"{case[1]} ({source}): table and YAML definition differ: {x}")


def bad_case(case, res, tmp):
    d, dfs = bad(case[1])
    res.evaluations += 1
    try:
        m = load(d, dfs)
    except Exception as e:
        res.nontrivial += 1
        if case[1] not in ANY_ERROR and type(e).__name__ not in ("ModelError", "ValidationError"):
            res.fail(f"crash:{case[1]}", f"bad table {case[1]}: {type(e).__name__} instead of a model error: {str(e)[:200]}")
        return
    res.fail(f"silent:{case[1]}", f"bad table {case[1]} loaded silently; inputs {list(m.inputs.data_vars)}")


def clash_case(case, res, tmp):
    """Two tables that give the same text input / carrier / base technology for the same technology: the later one wins."""
    _, i, j = case
    kinds = [("base_tech", "supply", "conversion"), ("carrier_out", "e", "h"), ("name", "one", "two"), ("ls", "foo", "bar")]
    name, v1, v2 = kinds[i]
    d0 = base()
    d0["techs"]["t"].pop(name, None)

    def table(v):
        if name == "carrier_out":
            return [({"techs": "t", "carriers": v, "inputs": name}, 1)], ["techs", "carriers"], ["inputs"]
        if v is None:
            # the table has the column, but nothing in it for this technology
            return [({"techs": "t", "inputs": "pt"}, 3), ({"techs": "s", "inputs": "pt"}, 4), ({"techs": "s", "inputs": name}, s_value)], ["techs"], ["inputs"]
        return [({"techs": "t", "inputs": name}, v)], ["techs"], ["inputs"]

    s_value = {"base_tech": "supply", "name": "one", "ls": "foo"}.get(name)
    order = [(v1, v2), (v2, v1), (v1, v1), (v2, v2), (v1, None), (None, v2)][j]
    d = base()
    d["techs"]["t"].pop(name, None)
    d["techs"]["t"][name] = order[1] if order[1] is not None else order[0]
    if None in order:
        d["techs"]["t"]["pt"] = 3
        d["techs"]["s"]["pt"] = 4
        d["techs"]["s"][name] = s_value
    want = load(d).inputs
    tabs = {}
    for n, v in zip(("zz", "aa"), order):
        en, rows, cols = table(v)
        tabs[n] = ({"rows": rows, "columns": cols}, en, rows, cols, PLAIN)
    key = f"{name}:{'->'.join(map(str, order))}"
    if name == "carrier_out" and (order[0] != order[1] or None in order):
        return
    res.evaluations += 1
    res.nontrivial += 1
    try:
        m = with_table(tabs, lambda d: d["techs"]["t"].pop(name, None), "df", tmp)
    except Exception as e:
        res.fail(f"clash:{key}", f"later table does not override the earlier one: {key}: {type(e).__name__} {str(e)[:200]}")
        return
    if x := c11.same_data(m.inputs.drop_vars("color").reindex(techs=want.techs), want.drop_vars("color")):
        res.fail(f"clash:{key}", f"later table does not override the earlier one: {key}: {x}")


def frames_case(case, res, tmp):
    """Loading leaves the data frames it was given as they were, so the same frame can be used again."""
    i = case[1]
    names = i % 2 == 0
    ren = i >= 2
    en = cube(("inputs", "techs", "nodes"), 0, False)
    df = frame(en, ["nodes", "techs"], ["inputs"], names=names)
    if ren and names:
        df = df.rename_axis(index={"nodes": "where"})
    before = df.copy()
    d = base()
    d["data_tables"] = {"one": {"table": "df", "rows": ["nodes", "techs"], "columns": "inputs", "add_dims": {"d": "x"}} | ({"rename_dims": {"where": "nodes"}} if ren else {}),
                        }
    for _ in range(2):
        m = load(d, {"df": df})
        res.evaluations += 1
        res.nontrivial += 1
        if x := direct(m.inputs, [({**e, "d": "x"}, v) for e, v in en]):
            res.fail(f"frames:{i}:value", x)
        if list(df.index.names) != list(before.index.names) or list(df.columns.names) != list(before.columns.names) or not df.equals(before):
            res.fail(f"frames:{i}", f"the data frame given was modified: names {before.index.names}|{before.columns.names} became {df.index.names}|{df.columns.names}")


# --- export ---------------------------------------------------------------------------------------
EXPORT = [["store"], ["link", "store"], ["conv"], ["export"], ["invest", "link"], ["clustered"]]


def csv_cases(tier):
    feats = [f for f in systems.F]
    n = 6 if tier == "quick" else 20
    step = max(1, len(feats) // n)
    return [("csv", f) for f in list(feats)[::step][:n]]


def csv_case(case, res, tmp):
    m = systems.solve(systems.build(systems.load([case[1]], backend="gurobi")))
    for dropna in (True, False):
        path = pathlib.Path(tmp) / f"out{dropna}"
        m.to_csv(path, dropna=dropna)
        seen = set()
        for group, ds in (("inputs", m.inputs), ("results", m.results)):
            for name, da in ds.data_vars.items():
                f = path / f"{group}_{name}.csv"
                seen.add(f.name)
                key = f"{case[1]}:{name}:{dropna}"
                res.evaluations += 1
                res.nontrivial += 1
                if not f.exists():
                    res.fail(f"missing:{key}", f"{f.name} was not written")
                    continue
                df = pd.read_csv(f, keep_default_na=False, na_values=[""], dtype=str)
                if list(df.columns[:-1]) != list(da.dims):
                    res.fail(f"dims:{key}", f"{f.name} has columns {list(df.columns)}, the array is indexed over {da.dims}")
                    continue
                got = {tuple(r[:-1]): r[-1] for r in df.itertuples(index=False)}
                if len(got) != len(df):
                    res.fail(f"dups:{key}", f"{f.name} lists an element twice")
                want = {}
                for idx in itertools.product(*(range(da.sizes[d]) for d in da.dims)):
                    lab = []
                    for d, i in zip(da.dims, idx):
                        x = da[d].values[i]
                        lab.append(pd.Timestamp(x) if da[d].dtype.kind == "M" else str(x))
                    v = da.values[idx]
                    if not (dropna and pd.isnull(v)):
                        want[tuple(lab)] = v
                got = {tuple(pd.Timestamp(x) if da[d].dtype.kind == "M" else x for d, x in zip(da.dims, k)): v for k, v in got.items()}
                if set(got) != set(want):
                    res.fail(f"index:{key}", f"{f.name} lists {len(got)} elements, the array has {len(want)}")
                    continue
                for k, v in want.items():
                    g = got[k]
                    if pd.isnull(v):
                        ok = pd.isnull(g)
                    elif da.dtype.kind == "b" or isinstance(v, (bool, np.bool_)):
                        ok = g == str(bool(v))
                    elif da.dtype.kind in "fiu" or isinstance(v, (int, float)):
                        ok = not pd.isnull(g) and float(g) == float(v)
                    elif da.dtype.kind == "M":
                        ok = pd.Timestamp(g) == pd.Timestamp(v)
                    else:
                        ok = g == str(v)
                    if not ok:
                        res.fail(f"value:{key}", f"{f.name} at {k}: {g!r}, the array holds {v!r}")
                        break
        if extra := {f.name for f in path.iterdir()} - seen - {"attrs.yaml"}:
            res.fail(f"extra:{case[1]}", f"unexpected files {sorted(extra)}")
        before = {f.name: f.stat().st_mtime_ns for f in path.iterdir()}
        try:
            m.to_csv(path, dropna=dropna)
            res.fail(f"overwrite:{case[1]}", "an existing directory was overwritten without asking")
        except FileExistsError:
            pass
        if before != {f.name: f.stat().st_mtime_ns for f in path.iterdir()}:
            res.fail(f"overwrite:{case[1]}", "files were changed by a refused export")


def cases(tier):
    yield from csv_cases(tier)
    yield from layout_cases(tier)
    yield from ops_cases(tier)
    yield from override_cases(tier)
    yield from lookup_cases(tier)


def run_case(case, res):
    tmp = tempfile.mkdtemp(prefix="c15_")
    try:
        {"layout": layout_case, "ops": ops_case, "override": override_case, "lookup": lookup_case, "bad": bad_case, "clash": clash_case, "frames": frames_case,
         "csv": csv_case}[case[0]](case, res, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
