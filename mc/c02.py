"""C02: model definitions compose by a fixed priority.

Reference model: the documented composition written with the plain-tree merge of mc/c01.py.  Every assignment of
values to priority layers, every scenario expression, template inheritance graph and import tree within the bounds
is composed by the real code and compared.
"""
import copy
import itertools
import pathlib
import shutil
import tempfile

import mc.fast  # noqa: F401
from calliope import io
from calliope.preprocess import prepare_model_definition
from mc.c01 import Refuse, Unspecified, expand, ref_union

PROPERTY, LEVEL = "C02", "model_checking"
RULE = "every layer assignment / scenario expression / template graph / import tree within the bounds"
BOUNDS = {"quick": "5 priority layers x 3-5 options per key at 3 sites; 3 overrides x 3 scenarios; 3 templates; 3 files x 3 keys",
          "thorough": "as quick with two keys per layer and 4 templates"}
CHUNK = 40


def site_get(dump, site):
    if site == "node":
        return dump["definition"]["nodes"]["n"]["techs"]["t"]
    if site == "config":
        return dump["config"]["solve"]["solver_options"]
    if site == "defs":
        return {k: v for k, v in dump["definition"]["data_definitions"].items()}


SITES = {"node": "nodes.n.techs.t", "config": "config.solve.solver_options", "defs": "data_definitions"}


def base_def():
    return {"config": {"init": {"name": "base"}, "build": {}, "solve": {}}, "techs": {"t": {"base_tech": "supply"}},
            "nodes": {"n": {"techs": {"t": {}}}}}


def nest(path, content):
    for part in reversed(path.split(".")):
        content = {part: content}
    return content


# ---------------------------------------------------------------- reference composition
def merge(a, b, override=True, replace=False):
    return ref_union(a, b, override, replace)


def ref_scenarios(scenario, overrides, scenarios, stack=()):
    if scenario in stack:
        raise Refuse
    stack += (scenario,)
    if scenario in scenarios:
        v = scenarios[scenario]
        names = v if isinstance(v, list) else [v]
    else:
        names = scenario.split(",")
    out = set()
    for n in names:
        if isinstance(n, dict):
            raise Refuse
        if n in scenarios:
            out |= ref_scenarios(n, overrides, scenarios, stack)
        elif n not in overrides:
            raise Refuse
        else:
            out.add(n)
    return out


def ref_template(name, raw, stack=()):
    if name in stack or name not in raw:
        raise Refuse
    t = {}
    if "template" in raw[name]:
        t = merge(t, ref_template(raw[name]["template"], raw, stack + (name,)))
    return merge(t, {k: v for k, v in raw[name].items() if k != "template"})


def ref_resolve(section, raw):
    if not isinstance(section, dict):
        return section
    t = {}
    if "template" in section:
        t = ref_template(section["template"], raw)
    return merge(t, {k: ref_resolve(v, raw) for k, v in section.items() if k not in ("template", "templates")})


def ref_compose(definition, scenario, od, kwargs):
    definition, od = expand(definition), expand(od or {})
    ov = merge(definition.get("overrides", {}), od.get("overrides", {}))
    sc = merge(definition.get("scenarios", {}), od.get("scenarios", {}))
    d = {k: v for k, v in definition.items() if k not in ("overrides", "scenarios")}
    applied = set()
    if scenario is not None:
        applied = ref_scenarios(scenario, ov, sc)
        results = []
        for order in itertools.permutations(sorted(applied)):
            comb = {}
            for o in order:
                comb = merge(comb, ov[o] or {}, override=False)
            results.append(comb)
        if any(r != results[0] for r in results):
            raise AssertionError("reference composition depends on order")
        d = merge(d, results[0], replace=True)
    d = merge(d, {k: v for k, v in od.items() if k not in ("overrides", "scenarios")}, replace=True)
    raw = d.get("templates", {})
    for name in raw:
        ref_template(name, raw)
    d = ref_resolve(d, raw)
    return merge(d, {"config": {"init": kwargs}}), applied


def judge(res, key, definition, scenario=None, od=None, kwargs=None, site=None, sites=("node", "config", "defs")):
    """Run the real composition on copies and compare every site; also check that arguments are untouched."""
    kwargs = kwargs or {}
    res.transitions += 1
    res.states += 1
    try:
        want, applied = ref_compose(definition, scenario, od, kwargs)
    except Unspecified:
        res.counts["unspecified"] += 1
        return
    except Refuse:
        want = None
    d2, o2 = copy.deepcopy(definition), copy.deepcopy(od)
    try:
        got = prepare_model_definition(d2, scenario, o2, **kwargs)
    except Exception as e:
        res.outcome("refused")
        if want is not None:
            res.fail(f"refused:{key}", f"valid composition refused: {e!r:.300}")
        else:
            res.counts["refused"] += 1
            res.traces += 1
        return
    if want is None:
        res.fail(f"accepted:{key}", "an undefined, circular or doubly specified reference was accepted")
        return
    res.traces += 1
    dump = got.model_dump()
    for s in sites:
        w = want
        for part in SITES[s].split("."):
            w = (w or {}).get(part, {})
        g = site_get(dump, s)
        g = {} if g is None else expand(g)
        if g != (w or {}):
            res.fail(f"value:{s}:{key}", f"{s}: composed {g!r}, expected {w!r}")
        res.outcome(g)
    if dump["config"]["init"]["name"] != want["config"]["init"].get("name"):
        res.fail(f"name:{key}", f"config.init.name {dump['config']['init']['name']!r} != {want['config']['init'].get('name')!r}")
    for opt in ("subset", "resample"):
        if dump["config"]["init"][opt] != want["config"]["init"].get(opt, {}):
            res.fail(f"{opt}:{key}", f"config.init.{opt} {dump['config']['init'][opt]!r} != {want['config']['init'].get(opt)!r}")
    app = dump["runtime"]["applied_overrides"]
    if set(filter(None, (app or "").split(";"))) != applied or len(list(filter(None, (app or "").split(";")))) != len(applied):
        res.fail(f"applied:{key}", f"applied_overrides {app!r} != {applied!r}")
    if dump["runtime"]["scenario"] != scenario:
        res.fail(f"scenario:{key}", f"runtime.scenario {dump['runtime']['scenario']!r}")
    if d2 != definition or o2 != od:
        res.fail(f"mutated:{key}", "the given definition or override dictionary was modified")


LAYERS = ["template", "base", "o1", "o2", "od"]


def layered(site, vals):
    """Definition with one value per layer at the site (None means layer absent, value otherwise)."""
    path = SITES[site]
    d, ov, od = base_def(), {}, {}
    v = dict(zip(LAYERS, vals))
    if v["template"] is not None:
        d["templates"] = {"T": v["template"]}
        d = merge(d, nest(path, {"template": "T"}))
    if v["base"] is not None:
        d = merge(d, nest(path, v["base"]))
    for o in ("o1", "o2"):
        ov[o] = nest(path, v[o]) if v[o] is not None else None
    if v["od"] is not None:
        od = nest(path, v["od"])
    d["overrides"] = ov
    return d, od


def scalar_options(i):
    return [None, {"p": i + 1}, {"p": None}]


def block_options(i):
    return [None, {"b": {"x": i}}, {"b": {"y": i}}, {"b": {"x": i + 10, "y": i + 10}}, {"b": None}]


TEMPL_CONTENT = [{"p": 1, "b": {"x": 1}}, {"p": 2, "b": {"y": 2}}, {"q": 3, "b": {"x": 3, "z": 3}}, {"p": None, "b": None}]


def cases(tier):
    out = []
    for site in SITES:
        for combo in itertools.product(range(3), repeat=5):
            out.append(["scalar", site, list(combo)])
    for site in ("node", "config"):
        for combo in itertools.product(range(5), repeat=5):
            out.append(["block", site, list(combo)])
    for site in ("node", "config"):
        for combo in itertools.product(range(3), range(4), range(4), range(5)):
            out.append(["replace", site, list(combo)])
    for combo in itertools.product(range(2), repeat=4):
        for opt in ("name", "subset", "resample"):
            out.append(["kwargs", opt, list(combo)])
    for i, j in itertools.product(range(len(OV_CONTENT)), repeat=2):
        out.append(["pair", i, j])
    for e in scenario_exprs():
        out.append(["scenario", e])
    n = 3 if tier == "quick" else 4
    for g in itertools.product([None, *[f"t{k}" for k in range(n)], "undef"], repeat=n):
        for shift in range(2 if tier == "quick" else 4):
            out.append(["template", list(g), shift])
    for graph in range(len(GRAPHS)):
        for assign in itertools.product(range(8), repeat=3):
            out.append(["import", graph, list(assign)])
    if tier != "quick":
        for site in ("node", "config"):
            for combo in itertools.product(range(3), range(5), range(5), range(5), range(5), range(3)):
                out.append(["both", site, list(combo)])
    return out


OV_CONTENT = [{}, {"p": 1}, {"p": 2}, {"p": None}, {"b": {"x": 1}}, {"b": {"x": 2}}, {"b": {"y": 1}}, {"b": 5}, {"b": {}},
              {"b": None}, {"b": {"x": {"z": 1}}}, {"p": 1, "b": {"y": 1}}]
SCEN = {"s1": ["o1", "o2"], "s2": ["s1", "o3"], "s3": "o3", "loop": ["loop"], "l1": ["l2"], "l2": ["o1", "l1"], "bad": ["o1", "nope"],
        "dictin": [{"o1": 1}], "clash": ["o1", "o4"], "dup": ["o1", "o1", "s1"]}


def scenario_exprs():
    names = ["o1", "o2", "o3", "o4", "s1", "s2", "s3", "loop", "l1", "bad", "dictin", "clash", "dup", "nope"]
    out = list(names)
    out += [",".join(c) for c in itertools.permutations(["o1", "o2", "o3", "o4", "s1", "s2", "s3", "nope"], 2)]
    out += [",".join(c) for c in itertools.permutations(["o1", "o2", "o3", "s1", "s3"], 3)]
    return out


# import graphs: main file imports; a imports (paths relative to the importing file); files a = sub/a.yaml, b = sub/deep/b.yaml
GRAPHS = [
    {"main": ["sub/a.yaml", "sub/deep/b.yaml"], "a": []},
    {"main": ["sub/deep/b.yaml", "sub/a.yaml"], "a": []},
    {"main": ["sub/a.yaml"], "a": ["deep/b.yaml"]},
    {"main": ["ABS/sub/a.yaml"], "a": ["ABS/sub/deep/b.yaml"]},
]
IMPORT_KEYS = ["k1", "k2.x", "k2.y"]


def run_case(case, res):
    kind = case[0]
    key = repr(case)
    if kind == "scalar":
        d, od = layered(case[1], [scalar_options(i)[c] for i, c in enumerate(case[2])])
        judge(res, key, d, "o1,o2", od, sites=[case[1]])
    elif kind == "block":
        d, od = layered(case[1], [block_options(i)[c] for i, c in enumerate(case[2])])
        judge(res, key, d, "o1,o2", od, sites=[case[1]])
    elif kind == "both":
        c = case[2]
        vals = [block_options(i)[k] for i, k in enumerate(c[1:5])]
        t = scalar_options(9)[c[0]] or {}
        d, od = layered(case[1], [{**t, "b": {"x": 7}}, vals[0], vals[1], None, vals[2]])
        d["overrides"]["o2"] = nest(SITES[case[1]], scalar_options(5)[c[5]] or {})
        judge(res, key, d, "o1,o2", od, sites=[case[1]])
    elif kind == "replace":
        t, b, o, e = case[2]
        vals = [[None, {"b": {"x": 0, "z": 0}}, {"b": {"y": 0}}][t],
                [None, {"b": {"x": 1}}, {"b": {"x": 1, "y": 1}}, {"b": {"w": {"v": 1}}, "p": 1}][b],
                [None, {"b": {"x": 2}}, {"b": {"_REPLACE_": {"y": 2}}}, {"b": {"_REPLACE_": {"w": {"v": 2}, "y": 2}}}][o], None,
                [None, {"b": {"x": 3}}, {"b": {"_REPLACE_": {"y": 3, "u": 3}}}, {"b": {"_REPLACE_": {}}}, {"b": {"w": {"_REPLACE_": {"t": 3}}}}][e]]
        d, od = layered(case[1], vals)
        judge(res, key, d, "o1", od, sites=[case[1]])
    elif kind == "kwargs":
        d, val = base_def(), {
            "name": lambda i: f"n{i}", "subset": lambda i: {"timesteps": [f"200{i}", f"200{i}"]}, "resample": lambda i: {"timesteps": f"{i + 1}h"}}[case[1]]
        c = case[2]
        if not c[0]:
            d["config"]["init"] = {"name": "base"} if case[1] != "name" else {}
        else:
            d["config"]["init"] = {"name": "base", case[1]: val(1)}
        d["overrides"] = {"o1": {"config.init": {case[1]: val(2)}} if c[1] else {}}
        od = {f"config.init.{case[1]}": val(3)} if c[2] else None
        kw = {case[1]: val(4)} if c[3] else {}
        judge(res, key, d, "o1", od, kw)
        judge(res, key + "noscenario", d, None, od, kw)
    elif kind == "pair":
        for site in ("node", "config"):
            d = base_def()
            path = SITES[site]
            d["overrides"] = {"oa": nest(path, OV_CONTENT[case[1]]), "ob": nest(path, OV_CONTENT[case[2]])}
            for sc in ("oa,ob", "ob,oa"):
                judge(res, f"{key}{site}{sc}", d, sc, None, sites=[site])
            d["scenarios"] = {"s": ["oa", "ob"]}
            judge(res, f"{key}{site}s", d, "s", {"nodes.n.techs.t.extra": 1}, sites=[site])
    elif kind == "scenario":
        d = base_def()
        d["scenarios"] = SCEN
        d["overrides"] = {f"o{i}": nest(SITES["node"], {f"k{i}": i, "b": {f"x{i}": i}}) for i in (1, 2, 3)}
        d["overrides"]["o4"] = nest(SITES["node"], {"b": {"x1": 9}})
        judge(res, key, d, case[1])
        # the override dictionary may redefine scenarios and overrides before they are applied, and wins over their values
        judge(res, key + "od", d, case[1], {"overrides": {"o1": nest(SITES["node"], {"k1": 11})}, "scenarios": {"s1": ["o3"]},
                                            **nest(SITES["node"], {"k3": 33})})
    elif kind == "template":
        d, g = base_def(), case[1]
        d["templates"] = {}
        for i, parent in enumerate(g):
            d["templates"][f"t{i}"] = {**copy.deepcopy(TEMPL_CONTENT[(i + case[2]) % 4]), **({"template": parent} if parent else {})}
        d["nodes"]["n"]["techs"]["t"] = {"template": "t0", "b": {"x": 9}}
        d["config"]["solve"]["solver_options"] = {"template": f"t{len(g) - 1}", "q": 9}
        d["overrides"] = {"o1": {"templates.t1.b.x": 50}}
        judge(res, key, d)
        judge(res, key + "o1", d, "o1", {"templates.t0.p": 70})
    elif kind == "import":
        run_import(case, res, key)
    if res.states and hash(key) % 97 == 0:
        res.sample = case


def run_import(case, res, key):
    graph, assign = GRAPHS[case[1]], case[2]
    tmp = tempfile.mkdtemp(prefix="mc_c02_")
    try:
        root = pathlib.Path(tmp)
        (root / "sub" / "deep").mkdir(parents=True)
        files = {"main": root / "main.yaml", "a": root / "sub/a.yaml", "b": root / "sub/deep/b.yaml"}
        imports = {"main": graph["main"], "a": graph["a"], "b": []}
        content, clash = {}, False
        for n, f in files.items():
            lines = []
            if imports[n]:
                lines.append("import: [" + ", ".join(f"'{i.replace('ABS', tmp)}'" for i in imports[n]) + "]")
            for k, who in zip(IMPORT_KEYS, assign):
                if who & (1 << list(files).index(n)):
                    clash |= k in content
                    content[k] = f"v_{n}"
                    lines.append(f"{k}: v_{n}")
            lines.append(f"own_{n}: 1")
            content[f"own_{n}"] = 1
            f.write_text("\n".join(lines) + "\n")
        res.states += 1
        res.transitions += 1
        try:
            got = io.read_rich_yaml(files["main"])
        except Exception as e:
            if not clash:
                res.fail(f"import-refused:{key}", f"{e!r:.300}")
            return
        res.traces += 1
        if clash:
            res.fail(f"import-clash:{key}", f"a key defined in two files was accepted: {got!r}")
        elif dict(got.as_dict()) != expand(content):
            res.fail(f"import:{key}", f"{got!r} != {expand(content)!r}")
        # writing and reading back keeps the content
        out = root / "out.yaml"
        text = io.to_yaml(got, path=out)
        if io.read_rich_yaml(out) != got or io.read_rich_yaml(text) != got:
            res.fail(f"roundtrip:{key}", f"{text!r}")
        res.outcome(sorted(content))
    finally:
        shutil.rmtree(tmp)
