"""C16: which technologies exist where, with which carriers and which input values.

switches: every combination of activity switches over a system of nodes, technologies and links (set directly, through templates,
          an override or on top of data tables), against a definition in which the switched-off items are missing, and against the
          documented rules (`expected` below).
subset:   every subset of nodes and technologies kept by `config.init.subset`, together with switches.
values:   every placement of an input value (at the technology, at either node, through templates, plain or indexed) for several
          kinds of input.
links:    every combination of link options (carriers, direction, ends, given or computed distance, coordinates).
"""
from __future__ import annotations

import copy
import itertools
import math
import warnings

import pandas as pd

from mc import fast, problem

fast.memo_grammars()

PROPERTY, LEVEL = "C16", "exploration"
RULE = "switches/subset: at least one item is switched off or left out and something remains; values: at least one node sets the value; links: all"
ASSUMPTIONS = ["a definition without any carrier flowing in or out anywhere may be refused; a definition and its reduced form must then both be",
               "boolean inputs count as false where they are missing",
               "link distances computed from coordinates are compared with the geodesic distance of geographiclib"]
BOUNDS = {
    "quick": "12 switches, up to 2 off, plus all 256 combinations of 8 of them; 4 ways to switch up to 2 items; all subsets of 3 nodes x up to 1 switch, with a link between different carriers one-way and both-way; 10 inputs x up to 108 placements; 240 link variants",
    "thorough": "all 4096 switch combinations, each way to switch up to 3 items, subsets x up to 2 switches, all placements with two technologies",
}
CASE_TIMEOUT = 200
TS = ["2005-01-01 00:00", "2005-01-01 01:00"]
NODE_OFF, TECH_OFF = ["a", "b", "c"], ["s", "t", "l1", "l2", "l3"]
AT_OFF = [("a", "s"), ("b", "s"), ("b", "t"), ("c", "dem")]
SWITCHES = [("node", n) for n in NODE_OFF] + [("tech", t) for t in TECH_OFF] + [("at", x) for x in AT_OFF]
CORE = [("node", "a"), ("node", "b"), ("node", "c"), ("tech", "s"), ("tech", "l2"), ("at", ("b", "s")), ("at", ("b", "t")), ("at", ("c", "dem"))]


def idx(v, i, d):
    return {"data": v, "index": i, "dims": d}


def base():
    return {
        "config": {"init": {"name": "sys", "broadcast_input_data": True}},
        "techs": {
            "s": {"base_tech": "supply", "carrier_out": "e", "flow_cap_max": 9, "cost_flow_out": idx(2, "monetary", "costs"), "source_unit": "per_cap"},
            "t": {"base_tech": "conversion", "carrier_in": "e", "carrier_out": ["h", "q"], "flow_out_eff": idx([0.5, 0.25], ["h", "q"], "carriers"), "flow_cap_max": 4},
            "bat": {"base_tech": "storage", "carrier_in": "e", "carrier_out": "e", "storage_loss": 0.1, "storage_cap_max": math.inf},
            "dem": {"base_tech": "demand", "carrier_in": "h", "sink_unit": "absolute"},
            "l1": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", "flow_cap_max": 3},
            "l2": {"base_tech": "transmission", "carrier_in": "h", "carrier_out": "h", "link_from": "c", "link_to": "b", "one_way": True, "flow_out_eff": 0.9},
            "l3": {"base_tech": "transmission", "carrier_in": "e", "carrier_out": "x", "link_from": "a", "link_to": "c", "distance": 5},
        },
        "nodes": {
            "a": {"techs": {"s": {"flow_cap_max": 5}, "bat": None}, "available_area": 3, "latitude": 10, "longitude": 20},
            "b": {"techs": {"s": {"cost_flow_out": idx(3, "monetary", "costs"), "flow_out_eff": 0.7}, "t": {"flow_cap_max": 2}}, "latitude": 11, "longitude": 20},
            "c": {"techs": {"dem": {"sink_unit": "per_cap"}, "t": None}, "latitude": 10, "longitude": 22},
        },
        "data_definitions": {
            "sink_use_max": idx([1, 2, 3, 4], [["c", "dem", TS[0]], ["c", "dem", TS[1]], ["b", "dem", TS[0]], ["b", "dem", TS[1]]], ["nodes", "techs", "timesteps"]),
            "source_use_max": idx([7, 8], [["s", TS[0]], ["s", TS[1]]], ["techs", "timesteps"]),
            "always": idx([1, 2], [[TS[0]], [TS[1]]], ["timesteps"]),
            "flow_cap_max_systemwide": idx([6, 1], [["s"], ["bat"]], ["techs"]),
        },
    }


def load(d, dfs=None, **kw):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(copy.deepcopy(d), data_table_dfs=dfs, **kw)


# --- reference ------------------------------------------------------------------------------------

def link_nodes(d, t):
    return d["techs"][t]["link_from"], d["techs"][t]["link_to"]


def members(d):
    """{(node, tech): merged definition} of what exists, links included."""
    out = {}
    nodes = {n: x for n, x in d["nodes"].items() if (x or {}).get("active", True)}
    for n, x in nodes.items():
        for t, o in ((x or {}).get("techs") or {}).items():
            m = {**d["techs"][t], **(o or {})}
            if m.get("active", True):
                out[n, t] = m
    for t, m in d["techs"].items():
        if m["base_tech"] != "transmission" or not m.get("active", True):
            continue
        f, to = link_nodes(d, t)
        if f in nodes and to in nodes:
            a, b = dict(m), dict(m)
            if m.get("one_way"):
                a.pop("carrier_out")
                b.pop("carrier_in")
            out[f, t], out[to, t] = a, b
    return out


def listify(x):
    return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]


def remove(d, off):
    """The definition in which the items switched off never existed (links without both of their nodes included)."""
    d = copy.deepcopy(d)
    nodes, techs, ats = ({x for k, x in off if k == kind} for kind in ("node", "tech", "at"))
    for n in nodes:
        del d["nodes"][n]
    for t in list(d["techs"]):
        if t in techs or (d["techs"][t]["base_tech"] == "transmission" and nodes & set(link_nodes(d, t))):
            del d["techs"][t]
            techs = techs | {t}
    for n, x in d["nodes"].items():
        for t in list(x["techs"]):
            if t in techs or (n, t) in ats:
                del x["techs"][t]
    there = members(d)
    for t in list(d["techs"]):
        if not any(m[1] == t for m in there):
            del d["techs"][t]
            techs = techs | {t}
    for name in list(d.get("data_definitions", {})):
        x = d["data_definitions"][name]
        if not isinstance(x, dict):
            continue
        dims = listify(x["dims"])
        keep = []
        for i, ix in enumerate(x["index"]):
            at = dict(zip(dims, listify(ix)))
            if at.get("nodes") in nodes or at.get("techs") in techs or ("nodes" in at and "techs" in at and (at["nodes"], at["techs"]) not in there):
                continue
            keep.append(i)
        if not keep:
            del d["data_definitions"][name]
        else:
            x["data"], x["index"] = [x["data"][i] for i in keep], [x["index"][i] for i in keep]
    return d


def canon(ds):
    """{array: {element: value}}: every value at each (node, technology, carrier) that exists and each further index, whatever dimensions
    the array happens to have; arrays of false only count as missing."""
    there = sorted({(dict(k)["nodes"], dict(k)["techs"], dict(k)["carriers"]) for k, v in problem.elements(ds["definition_matrix"]).items() if v})
    out = {}
    for n, da in ds.data_vars.items():
        vals = {k: (v.item() if hasattr(v, "item") else v) for k, v in problem.elements(da).items()}
        if da.dtype.kind == "b":
            vals = {k: True for k, v in vals.items() if v}
        if "techs" in da.dims or {"nodes", "carriers"} <= set(da.dims):
            spread = {}
            by = {}
            for x in there:
                at = dict(zip(("nodes", "techs", "carriers"), x))
                by.setdefault(tuple((d, at[d]) for d in ("carriers", "nodes", "techs") if d in da.dims), []).append(x)
            for k, v in vals.items():
                rest = tuple(i for i in k if i[0] not in ("nodes", "techs", "carriers"))
                for x in by.get(tuple(i for i in k if i[0] in ("nodes", "techs", "carriers")), ()):
                    spread[(*x, *rest)] = v
                if not any(True for _ in by.get(tuple(i for i in k if i[0] in ("nodes", "techs", "carriers")), ())):
                    spread[("nowhere", *k)] = v
            vals = spread
        if vals:
            out[n] = vals
    for c in {c for n in out for c in ds[n].dims}:
        out["dim " + c] = {problem.item(x): True for x in ds[c].values}
    return out


def diff(a, b):
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        if x is None or y is None:
            return f"{n} is only in the {'second' if x is None else 'first'} model"
        if x != y:
            for k in sorted(set(x) | set(y), key=repr):
                if x.get(k) != y.get(k) and not (isinstance(x.get(k), float) and isinstance(y.get(k), float) and math.isclose(x[k], y[k], rel_tol=1e-9)):
                    return f"{n}{list(k) if isinstance(k, tuple) else [k]}: {x.get(k)} != {y.get(k)}"
    return None


def against_rules(d, m, keep_nodes=None, keep_techs=None):
    """Compare members, carriers and input values with the documented rules; None or a message."""
    there = members(d)
    if keep_nodes is not None:
        for t in {t for _, t in there if d["techs"][t]["base_tech"] == "transmission"}:
            if not set(link_nodes(d, t)) <= set(keep_nodes):
                there = {k: v for k, v in there.items() if k[1] != t}
        there = {k: v for k, v in there.items() if k[0] in keep_nodes}
    if keep_techs is not None:
        there = {k: v for k, v in there.items() if k[1] in keep_techs}
    ds = m.inputs
    for what in ("carrier_in", "carrier_out"):
        want = {(n, t, c) for (n, t), x in there.items() for c in listify(x.get(what))}
        got = {(dict(k)["nodes"], dict(k)["techs"], dict(k)["carriers"]) for k, v in problem.elements(ds[what]).items() if v}
        if got != want:
            return f"{what}: {sorted(got ^ want)} wrongly {'present' if got - want else 'absent'}"
    want = {(n, t, c) for (n, t), x in there.items() for w in ("carrier_in", "carrier_out") for c in listify(x.get(w))}
    got = {(dict(k)["nodes"], dict(k)["techs"], dict(k)["carriers"]) for k, v in problem.elements(ds.definition_matrix).items() if v}
    if got != want:
        return f"definition_matrix: {sorted(got ^ want)}"
    for dim, i in (("nodes", 0), ("techs", 1), ("carriers", 2)):
        if set(ds[dim].values.tolist()) != {w[i] for w in want}:
            return f"{dim}: {ds[dim].values.tolist()} instead of {sorted({w[i] for w in want})}"
    # values
    skip = {"carrier_in", "carrier_out", "active", "link_from", "link_to", "techs", "template"}
    have = canon(ds)
    for p in sorted({p for x in there.values() for p in x} - skip):
        vals = {}
        for (n, t), x in there.items():
            v = x.get(p)
            if v is None:
                continue
            if not isinstance(v, dict):
                v = {"data": v, "index": [[]], "dims": []}
            ixs, dims = [listify(i) for i in listify(v["index"])], listify(v["dims"])
            data = v["data"] if isinstance(v["data"], list) else [v["data"]] * len(ixs)
            for i, w in zip(ixs, data):
                at = dict(zip(dims, i))
                for c in {c for a, b, c in want if (a, b) == (n, t)}:
                    if at.get("carriers", c) == c:
                        vals[(n, t, c, *sorted((d_, pd.Timestamp(x).isoformat() if d_ == "timesteps" else x) for d_, x in at.items() if d_ != "carriers"))] = w
        vals = {k: v for k, v in vals.items() if v is not False}
        got = have.get(p, {})
        if got != vals:
            bad = sorted((k for k in set(got) | set(vals) if got.get(k) != vals.get(k)), key=repr)
            if p == "distance" and not any(k in vals for k in bad):
                continue  # computed from coordinates
            return f"{p} at {bad[0]}: {got.get(bad[0])} instead of {vals.get(bad[0])}"
    return None


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001
        return None, f"{type(e).__name__}: {str(e)[:200]}"


# --- switches -------------------------------------------------------------------------------------

def off_direct(d, off):
    for k, x in off:
        if k == "node":
            d["nodes"][x]["active"] = False
        elif k == "tech":
            d["techs"][x]["active"] = False
        else:
            n, t = x
            d["nodes"][n]["techs"][t] = {**(d["nodes"][n]["techs"][t] or {}), "active": False}


def off_template(d, off):
    d["templates"] = {"out": {"active": False}, "gone": {"template": "out"}}
    for i, (k, x) in enumerate(off):
        tpl = ["gone", "out"][i % 2]
        if k == "node":
            d["nodes"][x]["template"] = tpl
        elif k == "tech":
            d["techs"][x]["template"] = tpl
        else:
            n, t = x
            d["nodes"][n]["techs"][t] = {**(d["nodes"][n]["techs"][t] or {}), "template": tpl}


def off_override(d, off):
    ov = d.setdefault("overrides", {}).setdefault("o", {})
    for k, x in off:
        if k == "node":
            ov[f"nodes.{x}.active"] = False
        elif k == "tech":
            ov[f"techs.{x}.active"] = False
        else:
            ov[f"nodes.{x[0]}.techs.{x[1]}.active"] = False
    return {"scenario": "o"}


def to_tables(d):
    """Move all of techs and nodes that is not a switch into data tables."""
    d = copy.deepcopy(d)
    tech, node, nodeonly = [], [], []
    for t, x in d["techs"].items():
        for p in list(x):
            v = x[p]
            if p == "active":
                continue
            if isinstance(v, dict) or p in ("carrier_in", "carrier_out"):
                continue
            tech.append((t, p, x.pop(p)))
    for n, x in d["nodes"].items():
        for p in list(x):
            if p in ("techs", "active"):
                continue
            nodeonly.append((n, p, x.pop(p)))
        for t, y in list(x["techs"].items()):
            y = y or {}
            plain = {p: v for p, v in y.items() if not isinstance(v, dict) and p != "active"}
            for p, v in plain.items():
                node.append((n, t, p, v))
            rest = {p: v for p, v in y.items() if p not in plain}
            if plain and not rest:
                del x["techs"][t]  # listed by the table alone
            else:
                x["techs"][t] = rest or None
    dfs = {
        "tech": pd.Series({(t, p): v for t, p, v in tech}, dtype=object).rename_axis(index=["techs", "inputs"]).to_frame("v"),
        "node": pd.Series({(n, t, p): v for n, t, p, v in node}, dtype=object).rename_axis(index=["nodes", "techs", "inputs"]).to_frame("v"),
        "nodeonly": pd.Series({(n, p): v for n, p, v in nodeonly}, dtype=object).rename_axis(index=["nodes", "inputs"]).to_frame("v"),
    }
    dims = {"tech": ["techs", "inputs"], "node": ["nodes", "techs", "inputs"], "nodeonly": ["nodes", "inputs"]}
    d["data_tables"] = {k: {"table": k, "rows": dims[k]} for k, v in dfs.items() if len(v)}
    return d, {k: v for k, v in dfs.items() if len(v)}


def switch_cases(tier):
    seen = set()
    for n in range(13 if tier == "thorough" else 3):
        for off in itertools.combinations(SWITCHES, n):
            seen.add(off)
            yield ("switch", "direct", off)
    for n in range(len(CORE) + 1):
        for off in itertools.combinations(CORE, n):
            if off not in seen:
                yield ("switch", "direct", off)
    for way in ("template", "override", "tables", "tables-template"):
        for n in range(0, 4 if tier == "thorough" else 3):
            for off in itertools.combinations(SWITCHES, n):
                yield ("switch", way, off)


def inert(off):
    """Switches on technologies at a node whose node or technology is off as well."""
    return [(k, x) for k, x in off if k == "at" and (("node", x[0]) in off or ("tech", x[1]) in off)]


def switch_case(case, res):
    _, way, off = case
    key = f"{way}:{','.join(str(x) for x in off)}"
    d = base()
    kw, dfs = {}, None
    if way.startswith("tables"):
        d, dfs = to_tables(d)
        for n, t in AT_OFF:
            if ("at", (n, t)) in off and t not in d["nodes"][n]["techs"]:
                d["nodes"][n]["techs"][t] = None
    if way in ("direct", "tables"):
        off_direct(d, off)
    elif way.endswith("template"):
        off_template(d, off)
    else:
        kw = off_override(d, off)
    m, err = attempt(lambda: load(d, dfs, **kw))
    d1 = remove(base(), off)
    m1, err1 = attempt(lambda: load(d1))
    res.evaluations += 2
    if off and m1 is not None:
        res.nontrivial += 1
    if (m is None) != (m1 is None):
        return res.fail(f"outcome:{key}", f"switched off: {err or 'loads'}; never defined: {err1 or 'loads'}")
    if m is None:
        res.outcome(("refused",))
        if members(d1) and (err.split(":")[0] not in ("ModelError", "AttributeError", "KeyError", "ValidationError", "ValueError")):
            res.fail(f"error:{key}", err)
        return
    res.outcome((way, len(m.inputs.techs), len(m.inputs.nodes)))
    if msg := diff(canon(m.inputs), canon(m1.inputs)):
        return res.fail(f"absent:{key}", f"differs from the definition without these items: {msg}")
    dd = base()
    off_direct(dd, off)
    if msg := against_rules(dd, m):
        res.fail(f"rules:{key}", msg)
    if len(off) == 2:
        res.sample = {"way": way, "off": [str(x) for x in off], "techs": m.inputs.techs.values.tolist()}


# --- subset ---------------------------------------------------------------------------------------

def subset_cases(tier):
    keeps = [k for n in (1, 2, 3) for k in itertools.combinations("abc", n)]
    for keep in keeps:
        for n in range(3 if tier == "thorough" else 2):
            for off in itertools.combinations(SWITCHES, n):
                for oneway in (False, True):
                    if not oneway or len(off) < 1 or tier == "thorough":
                        yield ("subset", keep, None, off, oneway)
    techs = ["s", "t", "bat", "dem", "l1", "l2", "l3"]
    for n in (4, 5, 6):
        for kt in itertools.combinations(techs, n):
            for keep in (keeps[3:] if tier == "thorough" else [keeps[-1], ("b", "c")]):
                yield ("subset", keep, kt, (), tier == "thorough" or "l3" in kt)


def subset_case(case, res):
    _, keep, kt, off, oneway = case
    key = f"{keep}:{kt}:{','.join(str(x) for x in off)}:{oneway}"

    def system():
        d = base()
        if oneway:
            d["techs"]["l3"]["one_way"] = True
        return d

    d = system()
    off_direct(d, off)
    ref = system()
    off_direct(ref, off)
    present = {n for n, _ in members(d)}
    techs = {t for _, t in members(d)}
    sub = {"nodes": [n for n in keep if n in present]}
    if kt is not None:
        sub["techs"] = [t for t in kt if t in techs]
    d["config"]["init"]["subset"] = sub
    m, err = attempt(lambda: load(d))
    gone = list(off) + [("node", n) for n in "abc" if n not in keep]
    if kt is not None:
        gone += [("tech", t) for t in base()["techs"] if t not in kt]
    d1 = remove(system(), gone)
    m1, err1 = attempt(lambda: load(d1))
    res.evaluations += 2
    if not members(d1) or m1 is None:
        # nothing (sensible) left
        if m is not None and members(d1) and (msg := against_rules(ref, m, keep, kt)):
            res.fail(f"subset-rules:{key}", msg)
        return
    res.nontrivial += 1
    if m is None:
        return res.fail(f"subset-outcome:{key}", f"subset: {err}; never defined: loads")
    res.outcome(("subset", len(m.inputs.techs), len(m.inputs.nodes)))
    a, b = canon(m.inputs), canon(m1.inputs)
    for x in (a, b):
        x.pop("color", None)  # colours are handed out before subsetting
    if msg := diff(a, b):
        res.fail(f"subset:{key}", f"differs from the definition without these items: {msg}")
    if msg := against_rules(ref, m, keep, kt):
        res.fail(f"subset-rules:{key}", msg)


# --- values ---------------------------------------------------------------------------------------

INPUTS = {  # input: values to place (plain, indexed), dims of the indexed form
    "flow_cap_max": (1, 2.5, 3, ("carriers", ["e"])),
    "flow_out_eff": (0.5, 0.25, 0.75, ("carriers", ["e"])),
    "cost_flow_out": (None, None, None, ("costs", ["monetary", "co2"])),
    "source_use_max": (4, 5, 6, ("timesteps", TS)),
    "storage_cap_max": (math.inf, 0, 7, None),
    "source_unit": ("per_cap", "per_area", "absolute", None),
    "include_storage": (True, False, True, None),
    "name": ("x", "y", "z", None),
    "area_use_min": (0, 1, 2, None),
    "newinput": (1, 2, 3, ("extra", ["i", "j"])),
}


def place(name, i, how):
    """Value number i in the given form."""
    vals, ix = INPUTS[name][:3], INPUTS[name][3]
    if how == "plain":
        return vals[i]
    d, items = ix
    return idx([10 * (i + 1) + j for j in range(len(items))], [[x] for x in items], [d]) if name != "flow_out_eff" else idx([0.1 * (i + 1)], [[items[0]]], [d])


def value_cases(tier):
    for name, spec in INPUTS.items():
        forms = ([] if spec[0] is None else ["plain"]) + ([] if spec[3] is None else ["indexed"])
        for tech, a, b in itertools.product([None, *forms], repeat=3):
            used = {x for x in (tech, a, b) if x}
            if len(used) > 1:
                continue  # plain and indexed values of one input do not combine
            for other in (None, "tech", "node", "same") if tier == "thorough" or name in ("flow_cap_max", "cost_flow_out", "include_storage", "source_unit") else (None, "node"):
                for via in ("direct", "template"):
                    if via == "template" and not used:
                        continue
                    yield ("value", name, tech, a, b, other, via)


def value_case(case, res):
    _, name, tech, a, b, other, via = case
    key = f"{name}:{tech}:{a}:{b}:{other}:{via}"
    d = base()
    d["nodes"]["a"]["techs"] = {"s": None, "t": None}
    d["nodes"]["b"]["techs"] = {"s": None, "t": None}
    d["nodes"]["c"]["techs"] = {"s": None, "dem": None}
    for t in ("s", "t", "bat", "dem", "l1", "l2", "l3"):
        d["techs"][t].pop(name, None)
    for n in d["nodes"].values():
        for t in n["techs"].values():
            if t:
                t.pop(name, None)
    d["data_definitions"].pop(name, None)
    d["data_definitions"]["sink_use_max"] = idx([1, 2], [["c", "dem", TS[0]], ["c", "dem", TS[1]]], ["nodes", "techs", "timesteps"])
    d.setdefault("templates", {})
    form = tech or a or b or ("plain" if INPUTS[name][0] is not None else "indexed")

    def put(holder, k, v, i):
        if via == "template":
            d["templates"][f"tp{i}"] = {name: v}
            holder[k] = {**(holder[k] or {}), "template": f"tp{i}"}
        else:
            holder[k] = {**(holder[k] or {}), name: v}

    if tech:
        put(d["techs"], "s", place(name, 0, tech), 0)
    if a:
        put(d["nodes"]["a"]["techs"], "s", place(name, 1, a), 1)
    if b:
        put(d["nodes"]["b"]["techs"], "s", place(name, 2, b), 2)
    if other == "tech":
        d["techs"]["t"][name] = place(name, 1, "plain") if form == "plain" else idx([1], [[{"carriers": "h"}.get(INPUTS[name][3][0], INPUTS[name][3][1][0])]], [INPUTS[name][3][0]])
    elif other == "node":
        d["nodes"]["b"]["techs"]["t"] = {name: place(name, 1, "plain") if form == "plain" else idx([1], [[{"carriers": "h"}.get(INPUTS[name][3][0], INPUTS[name][3][1][0])]], [INPUTS[name][3][0]])}
    elif other == "same":
        d["nodes"]["a"]["techs"]["t"] = {name: place(name, 2, "plain") if form == "plain" else idx([1], [[{"carriers": "h"}.get(INPUTS[name][3][0], INPUTS[name][3][1][0])]], [INPUTS[name][3][0]])}
    m, err = attempt(lambda: load(d))
    res.evaluations += 1
    if a or b:
        res.nontrivial += 1
    if m is None:
        return res.fail(f"value-error:{key}", err)
    ref = copy.deepcopy(d)
    tpl = ref.pop("templates")
    for holder in [ref["techs"], *(n["techs"] for n in ref["nodes"].values())]:
        for k, v in holder.items():
            if v and "template" in v:
                holder[k] = {**tpl[v.pop("template")], **v}
    res.outcome(("value", name, name in m.inputs and m.inputs[name].dims))
    if msg := against_rules(ref, m):
        res.fail(f"value:{key}", msg)


# --- links ----------------------------------------------------------------------------------------

def link_cases(tier):
    for oneway, ci, co, ends, dist, coords, other in itertools.product((False, True), ("e", "h"), ("e", "x"), ("ab", "ba", "ac"), (None, 7), ("all", "some", "none"), (False, True)):
        if coords == "some" and tier != "thorough" and other:
            continue
        yield ("link", oneway, ci, co, ends, dist, coords, other)


def link_case(case, res):
    from geographiclib.geodesic import Geodesic

    _, oneway, ci, co, ends, dist, coords, other = case
    key = ":".join(map(str, case[1:]))
    d = base()
    d["techs"]["l1"] = {"base_tech": "transmission", "carrier_in": ci, "carrier_out": co, "link_from": ends[0], "link_to": ends[1], "one_way": oneway}
    if dist is not None:
        d["techs"]["l1"]["distance"] = dist
    if not other:
        del d["techs"]["l2"], d["techs"]["l3"]
    for i, n in enumerate("abc"):
        if coords == "none" or (coords == "some" and n == "c"):
            del d["nodes"][n]["latitude"], d["nodes"][n]["longitude"]
    m, err = attempt(lambda: load(d))
    res.evaluations += 1
    res.nontrivial += 1
    if m is None:
        if coords == "some":  # partial coordinates are refused by a documented check at build time at the latest
            return res.outcome(("refused",))
        return res.fail(f"link-error:{key}", err)
    if msg := against_rules(d, m):
        return res.fail(f"link:{key}", msg)
    for t, x in d["techs"].items():
        if x["base_tech"] != "transmission":
            continue
        want = x.get("distance")
        f, to = (d["nodes"][n] for n in link_nodes(d, t))
        if want is None and "latitude" in f and "latitude" in to:
            want = Geodesic.WGS84.Inverse(f["latitude"], f["longitude"], to["latitude"], to["longitude"])["s12"] / 1000
        got = m.inputs["distance"].sel(techs=t).item() if "distance" in m.inputs else None
        if (want is None) != (got is None or got != got) or (want is not None and not math.isclose(want, got, rel_tol=1e-9)):
            if coords == "some" and want is None:
                continue
            res.fail(f"distance:{key}:{t}", f"distance of {t} is {got} instead of {want}")
    if "distance" in m.inputs and any(m.inputs.base_tech.sel(techs=dict(k)["techs"]).item() != "transmission" for k in problem.elements(m.inputs.distance)):
        res.fail(f"distance:{key}", "a technology that is not a link has a distance")
    res.outcome(("link", oneway, coords))


def cases(tier):
    yield from switch_cases(tier)
    yield from subset_cases(tier)
    yield from value_cases(tier)
    yield from link_cases(tier)


def run_case(case, res):
    {"switch": switch_case, "subset": subset_case, "value": value_case, "link": link_case}[case[0]](case, res)
