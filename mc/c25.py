"""C25: the math documentation shows what is built.

systems: the systems of mc/systems.py (each feature, the full system), the mode for alternatives and the example models, documented with all the math and with the
         part valid for the model.
off:     every constraint, objective and postprocessed expression of the math (and every expression and variable that nothing refers to)
         switched off in turn.
custom:  every combination of the options of a custom component (kind, index sets, condition, number of equations, sub-expressions, slices,
         description, unit, default, activity).
Each documentation is written in every format; a small reader takes the documents apart.  Against the math definition: the components
under each heading, each once; index sets; number of equations; description, unit, default, type; references (names found in the definition,
by a small reader of math strings) both ways, and the symbols in the displayed formula; sense and domain.  Against the problem built by
the solver interface: the components listed as valid.  The formats agree, a second documentation is the same, math and inputs are untouched.
"""
from __future__ import annotations

import collections
import copy
import itertools
import os
import re
import tempfile
import warnings

from mc import fast, systems

fast.memo_grammars()

PROPERTY, LEVEL = "C25", "exploration"
RULE = "every documented definition"
ASSUMPTIONS = ["in the documentation limited to a model, references may include those of equations that do not apply",
               "parameters and lookups are listed if something listed refers to them (by design)",
               "formulas are compared by their symbols, number of equations, index sets, sense and domain, not by their arithmetic"]
BOUNDS = {
    "quick": "each of 26 system features with the math it needs, four combinations, the mode for alternatives, each x all/valid x 3 formats; every component of the base math that can be switched off, in eight groups; about 800 custom components",
    "thorough": "as quick, with every pair of features, the example models, each component switched off alone, and all 1200 custom components",
}
CASE_TIMEOUT = 600

GROUPS = ["objectives", "constraints", "piecewise_constraints", "global_expressions", "variables", "postprocessed", "parameters", "lookups"]
HEADINGS = {"objective": "objectives", "subject to": "constraints", "subject to (piecewise)": "piecewise_constraints", "where": "global_expressions",
            "decision variables": "variables", "postprocessed statistics": "postprocessed", "parameters": "parameters", "lookup arrays": "lookups"}


# --- reading documents ------------------------------------------------------------------------------

def blocks(doc, fmt):
    """-> [(heading, name, body lines)]"""
    out, head = [], None
    lines = doc.split("\n")
    i = 0
    while i < len(lines):
        s = lines[i]
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        if fmt == "md" and s.startswith("## "):
            head = s[3:].strip()
        elif fmt == "md" and s.startswith("### "):
            out.append((head, s[4:].strip(), []))
        elif fmt == "rst" and s and not s.startswith(" ") and re.fullmatch(r"-{4,}", nxt):
            head = s.strip()
            i += 1
        elif fmt == "rst" and s and not s.startswith(" ") and re.fullmatch(r"\^+", nxt):
            out.append((head, s.strip(), []))
            i += 1
        elif fmt == "tex" and (m := re.fullmatch(r"\\section\{(.*)\}", s)):
            head = m.group(1)
        elif fmt == "tex" and (m := re.fullmatch(r"\\paragraph\{ (.*) \}", s)):
            out.append((head, m.group(1), []))
        elif out:
            out[-1][2].append(s)
        i += 1
    return out


def squeeze(s):
    return re.sub(r"\s+", " ", s).strip()


def fields(body, fmt):
    """One component: description, used_in, uses, unit, default, dtype, math (None if missing)."""
    f = {"description": "", "used_in": [], "uses": [], "unit": None, "default": None, "dtype": None, "math": None}
    text = "\n".join(body)
    m = {"md": re.compile(r"^\$\$\n(.*?)\n\$\$", re.S | re.M),
         "rst": re.compile(r"^    \.\. math::(.*)", re.S | re.M),
         "tex": re.compile(r"^\\begin\{equation\}\n.*?\{!\}\{\$\{?(.*?)\n?\$\}\n\\end\{equation\}", re.S | re.M)}[fmt].search(text)
    if m:
        f["math"] = squeeze(m.group(1).replace(r"\_", "_").replace(r"\(", "").replace(r"\)", ""))
        text = text[: m.start()]
    bold = r"\*\*{}\*\*" if fmt != "tex" else r"\\textbf\{{{}\}}"
    marks = {"used_in": "Used in", "uses": "Uses", "unit": "Unit", "default": "Default", "dtype": "Type"}
    found = sorted((mm.start(), mm.end(), k) for k, t in marks.items() for mm in re.finditer("^" + bold.format(t) + ":", text, re.M))
    seen = [k for _, _, k in found]
    if len(set(seen)) != len(seen):
        f["twice"] = True
    f["description"] = squeeze(text[: found[0][0]] if found else text).replace(r"\end{document}", "").replace(".. container:: scrolling-wrapper", "").strip()
    for (a, b, k), end in zip(found, [x[0] for x in found[1:]] + [len(text)]):
        val = text[b:end].replace(r"\end{document}", "").replace(".. container:: scrolling-wrapper", "")
        if k in ("used_in", "uses"):
            pat = {"md": r"^\* \[(.*?)\]\(#(.*?)\)$", "rst": r"^\* (.*)$", "tex": r"\\item (.*)$"}[fmt]
            items = re.findall(pat, val, re.M)
            if fmt == "md":
                if any(x != y for x, y in items):
                    f["badlink"] = True
                items = [x for x, _ in items]
            f[k] = items
        else:
            f[k] = squeeze(val) or None
    return f


def read(doc, fmt):
    return [(HEADINGS.get(squeeze(h or "").lower(), h), n, fields(b, fmt)) for h, n, b in blocks(doc, fmt)]


# --- reading math definitions -------------------------------------------------------------------------

def names_in(s, where=False):
    s = re.sub(r"\bconfig\.\w+", " ", str(s))
    if where:
        s = re.sub(r"(=|<|>)\s*[A-Za-z_]\w*", " ", s)
        s = re.sub(r"\[[^\]]*\]\s+in\b", " ", s)
        return set(re.findall(r"(?<![$\w.])([A-Za-z_]\w*)\b(?!\s*\()", s))
    return set(re.findall(r"(?<![$\w])([A-Za-z_]\w*)(?!\s*\()(?!\s*=[^=])", s)) | set(re.findall(r"(?<![$\w])([A-Za-z_]\w*)(?=\s*==)", s))


def refs_of(s):
    return set(re.findall(r"\$(\w+)", str(s)))


def each_equation(d):
    """-> [(names, ...)] one per combination of equation, sub-expressions and slices."""
    subs, slices = d.get("sub_expressions") or {}, d.get("slices") or {}
    out = []
    for eq in d.get("equations") or []:
        used = sorted(r for r in refs_of(eq["expression"]) if r in subs)
        for choice in itertools.product(*[subs[u] for u in used]):
            parts = [eq, *choice]
            sl = sorted({r for p in parts for r in refs_of(p["expression"]) if r in slices})
            for c2 in itertools.product(*[slices[x] for x in sl]):
                nm = set()
                for p in parts + list(c2):
                    nm |= names_in(p["expression"])
                    nm |= names_in(p.get("where", "True"), True)
                out.append(nm)
    return out


def reads(group, d):
    """-> (names referred to, number of equations shown)"""
    if group == "variables":
        return names_in(d["where"], True) | names_in(d["bounds"]["min"]) | names_in(d["bounds"]["max"]), 2
    if group == "piecewise_constraints":
        nm = names_in(d["where"], True)
        for k in ("x_expression", "y_expression", "x_values", "y_values"):
            nm |= names_in(d[k])
        return nm, 1
    eqs = each_equation(d)
    return set().union(names_in(d.get("where", "True"), True), *eqs), len(eqs)


# --- one documentation against math and problem -------------------------------------------------------

SYMBOL = re.compile(r"\\text(?:it|bf)\{(\w+)\}")
SETS = re.compile(r"\\text\{ (\w+) \}\\negthickspace \\in \\negthickspace\\text\{ (\w+),? \}")


def dump(math):
    return {g: {n: c.model_dump() for n, c in getattr(math, g).root.items()} for g in GROUPS + ["dimensions"] if hasattr(math, g)}


def document(m, include):
    from calliope.postprocess.math_documentation import MathDocumentation

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MathDocumentation(m, include=include)


def writes(doc, fmts=("md", "rst", "tex")):
    return {f: doc.write(format=f) for f in fmts}


def built(m):
    """Components which the solver interface builds."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.build(force=True)
    b = m.backend
    return {g: {n for n, da in getattr(b, g).data_vars.items() if bool(da.notnull().any())}
            for g in ("objectives", "constraints", "piecewise_constraints", "global_expressions", "variables")}


def check(key, m, res, post=None):
    before_math, before_in = copy.deepcopy(dump(m.math.build)), m.inputs.copy(deep=True)
    attrs = {n: copy.deepcopy(dict(v.attrs)) for n, v in m.inputs.variables.items()}
    docs = {}
    full = not key.startswith("system:") or "+" in key
    for inc in ("all", "valid"):
        doc = document(m, inc)
        docs[inc] = writes(doc) if full or inc == "valid" else writes(doc, ["md"])
        if full and doc.write(format="md") != docs[inc]["md"]:
            res.fail(f"{key}:{inc}:rewrite", "writing the same documentation twice gives different texts")
    if full and document(m, "all").write(format="md") != docs["all"]["md"]:
        res.fail(f"{key}:again", "documenting the model again gives a different text")
    if dump(m.math.build) != before_math:
        res.fail(f"{key}:math", "documenting the model changed its math")
    if not m.inputs.identical(before_in) or attrs != {n: dict(v.attrs) for n, v in m.inputs.variables.items()}:
        res.fail(f"{key}:inputs", "documenting the model changed its inputs")
    math = before_math
    active = {g: {n for n, d in math[g].items() if d.get("active", True)} for g in GROUPS}
    build = built(m)
    everything = {n for g in GROUPS for n in math[g]} | set(map(str, before_in.data_vars))
    for inc, texts in docs.items():
        parsed = {f: read(t, f) for f, t in texts.items()}
        ref = parsed["md"]
        for f in list(parsed)[1:]:
            a, b = [(g, n) for g, n, _ in ref], [(g, n) for g, n, _ in parsed[f]]
            if a != b:
                diff = sorted(map(str, set(a) ^ set(b)))[:3]
                res.fail(f"{key}:{inc}:{f}:list", f"{f} lists other components than md: {diff}")
                continue
            for (g, n, x), (_, _, y) in zip(ref, parsed[f]):
                if x != y:
                    k = next(k for k in x if x.get(k) != y.get(k))
                    res.fail(f"{key}:{inc}:{f}:{n}", f"{f} shows {k} of {n} otherwise than md: {str(y.get(k))[:150]} / {str(x.get(k))[:150]}")
        count = collections.Counter((g, n) for g, n, _ in ref)
        for gn, c in count.items():
            if c > 1 or gn[0] not in GROUPS:
                res.fail(f"{key}:{inc}:twice:{gn}", f"{gn} listed {c} times (or under an unknown heading)")
        heads = [g for g, _ in itertools.groupby(g for g, _, _ in ref)]
        if len(set(heads)) != len(heads):
            res.fail(f"{key}:{inc}:heads", f"headings repeated: {heads}")
        listed = {g: {n for gg, n, _ in ref if gg == g} for g in GROUPS}
        obj = set()
        for n in listed["objectives"]:
            mm = re.fullmatch(r"(\w+) \((active|inactive)\)", n)
            if not mm or (mm.group(2) == "active") != (mm.group(1) == m.config.build.objective):
                res.fail(f"{key}:{inc}:objective:{n}", f"objective shown as {n!r}; the active one is {m.config.build.objective}")
            obj.add(n.split(" ")[0])
        listed["objectives"] = obj
        for g in GROUPS[:6]:
            want = active[g] if inc == "all" else build.get(g)
            if g == "postprocessed" and inc == "valid":
                want = active[g] if post is None else post
                if post is None:
                    if not listed[g] <= want:
                        res.fail(f"{key}:{inc}:{g}", f"not in the math: {sorted(listed[g] - want)[:3]}")
                    continue
            for n in sorted(want - listed[g]):
                res.fail(f"{key}:{inc}:missing:{g}:{n}", f"{n} ({g}) is {'active' if inc == 'all' else 'built'} but not in the documentation ({inc})")
            for n in sorted(listed[g] - want):
                res.fail(f"{key}:{inc}:extra:{g}:{n}", f"{n} ({g}) is in the documentation ({inc}) but not {'active' if inc == 'all' else 'built'}")
        # each component
        shown_by_others = collections.defaultdict(set)
        uses = {}
        for g in GROUPS[:6]:
            for n in active[g]:
                uses[n] = reads(g, math[g][n])[0] & everything
        for n, us in uses.items():
            for u in us - {n}:
                shown_by_others[u].add(n)
        for g, n, f in ref:
            n = n.split(" ")[0]
            if g not in GROUPS or n not in active[g]:
                continue
            d = math[g][n]
            kk = f"{key}:{inc}:{n}"
            res.evaluations += 1
            for attr in ("description", "unit"):
                want = squeeze(d.get(attr) or "")
                if (f[attr] or "") != want:
                    res.fail(f"{kk}:{attr}", f"{attr} of {n} shown as {f[attr]!r}, defined as {want!r}")
            for attr in ("default", "dtype"):
                want = None if d.get(attr) is None else str(d[attr])
                if f[attr] != want:
                    res.fail(f"{kk}:{attr}", f"{attr} of {n} shown as {f[attr]!r}, defined as {want!r}")
            if f.get("twice") or f.get("badlink"):
                res.fail(f"{kk}:form", f"{n}: field repeated or link with another target")
            if f["used_in"] != sorted(set(f["used_in"])) or f["uses"] != sorted(set(f["uses"])):
                res.fail(f"{kk}:refs", f"{n}: references not sorted or repeated")
            if inc == "all" and set(f["used_in"]) != shown_by_others[n] or not set(f["used_in"]) <= shown_by_others[n]:
                res.fail(f"{kk}:used_in", f"{n}: 'used in' {f['used_in']}, by the math definition {sorted(shown_by_others[n])}")
            if g in GROUPS[6:]:
                if f["math"] is not None:
                    res.fail(f"{kk}:formula", f"{n}: a formula is shown for an input")
                if not f["used_in"]:
                    res.fail(f"{kk}:unused", f"{n}: listed though nothing refers to it")
                continue
            want, n_eq = uses[n] - {n}, reads(g, d)[1]
            if inc == "all" and set(f["uses"]) != want or not set(f["uses"]) <= want:
                res.fail(f"{kk}:uses", f"{n}: 'uses' {f['uses']}, by the math definition {sorted(want)}")
            if f["math"] is None:
                res.fail(f"{kk}:formula", f"{n}: no formula is shown")
                continue
            sets = [s for _, s in SETS.findall(f["math"])]
            foreach = list(d.get("foreach", []))
            if g == "piecewise_constraints":
                foreach.append("breakpoints")
            if sorted(sets) != sorted(foreach):
                res.fail(f"{kk}:sets", f"{n}: shown over {sets}, defined over {foreach}")
            its = [math["dimensions"][s]["iterator"] for s in sets if s in math["dimensions"]]
            if [i for i, _ in SETS.findall(f["math"])] != its:
                res.fail(f"{kk}:iterators", f"{n}: iterators of {sets} shown as {SETS.findall(f['math'])}")
            k = len(re.findall(r"\\qquad ", f["math"])) + len(re.findall(r"\\quad (?!\\text\{if \})", f["math"]))
            if (k != n_eq) if inc == "all" else not 1 <= k <= n_eq:
                res.fail(f"{kk}:equations", f"{n}: {k} equations shown, defined are {n_eq}")
            syms = (set(SYMBOL.findall(f["math"])) & everything) - {n}
            if not syms <= want or (inc == "all" and not want <= syms):
                res.fail(f"{kk}:symbols", f"{n}: symbols in the formula {sorted(syms)}, in the definition {sorted(want)}")
            sense = re.search(r"\\(min|max)\{\}", f["math"])
            if g == "objectives" and (sense is None or not d["sense"].startswith(sense.group(1))):
                res.fail(f"{kk}:sense", f"{n}: sense {sense and sense.group(1)}, defined {d['sense']}")
            if g == "variables" and {"real": r"\mathbb{R}", "integer": r"\mathbb{Z}"}[d["domain"]] not in f["math"]:
                res.fail(f"{kk}:domain", f"{n}: domain is not shown as {d['domain']}")
        refd = set().union(*[set(f["uses"]) for g, _, f in ref if g in GROUPS[:6]] or [set()])
        for g in GROUPS[6:]:
            for n in sorted((refd & active[g]) - listed[g]):
                res.fail(f"{key}:{inc}:missing:{g}:{n}", f"{n} ({g}) is referred to, but not listed")
        res.nontrivial += 1
        res.outcome((inc, sorted(count.items())))
    res.counts["documents"] += sum(map(len, docs.values()))
    return docs


# --- cases ----------------------------------------------------------------------------------------------

COMBOS = [["bat", "conv", "pv"], ["dam", "export", "two_costs"], ["milp_units", "bat_cyclic"], ["link2", "oneway", "unmet", "sinks"]]
# conditions: text -> nodes at which it holds
NODES = {None: "ab", "pn": "a", "pmissnan": "", "lb OR pn": "a", "not lb": "b", "pnd > 3": "b" , "defined(techs=[s, t], within=nodes, how=any)": "ab"}
PLAIN = {None: "ab", "p0": "ab", "pmissnan": "", "p0 > 3": ""}
SPACES = {"scalar": ([], PLAIN, "v0", "p0"), "nodes": (["nodes"], NODES, "vn", "pnd"), "pairs": (["nodes", "techs"], NODES, "vnt", "pntd"),
          "steps": (["nodes", "timesteps"], NODES, "vts + vn", "pts")}
BODIES = ["one", "two", "never", "sub", "slice", "subslice", "chain"]
METAS = {"bare": {}, "full": {"description": "Some words, with a `name_of` it.", "unit": "power per area", "default": 3}, "inf": {"default": ".inf", "unit": "1"}}


def holds(cond, space):
    if space == "scalar":
        return set(PLAIN[cond])
    return set({**NODES, "lb": "a", "not pmissnan": "ab", "p0": "ab", "not p0": ""}[cond])


def body(kind, space, b):
    """-> (definition, [conditions of each equation shown])"""
    _, _, v, p = SPACES[space]
    lo, hi = ("p0", "not p0") if space == "scalar" else ("lb", "not lb")
    wrap = (lambda e: f"{e} <= 5") if kind == "constraints" else (lambda e: e)
    if kind == "postprocessed":
        v = v.replace("vts + ", "")
    if b == "one":
        return {"equations": [{"expression": wrap(f"{v} * 2 - {p}")}]}, [[]]
    if b == "chain":  # a name twice, helper functions
        e = f"{v} + sum(vn, over=nodes) * {p} - (sum(vnt, over=techs) + {p})" if space not in ("scalar",) else f"{v} + sum(vn, over=nodes) * {p} - {p}"
        return {"equations": [{"expression": wrap(e)}]}, [[]]
    if b == "two":
        return {"equations": [{"where": lo, "expression": wrap(f"{v} + {p}")}, {"where": hi, "expression": wrap(f"{v} * 3 - pz")}]}, [[lo], [hi]]
    if b == "never":
        return {"equations": [{"where": "pmissnan", "expression": wrap(f"{v} * pmiss")}, {"where": "not pmissnan", "expression": wrap(f"{v} - {p}")}]}, [["pmissnan"], ["not pmissnan"]]
    if b == "sub":
        return {"equations": [{"expression": wrap(f"{v} + $first - $other")}],
                "sub_expressions": {"first": [{"where": lo, "expression": p}, {"where": hi, "expression": "pz"}], "other": [{"expression": "pmiss"}], "idle": [{"expression": "p0"}]}}, [[lo], [hi]]
    if b == "slice":
        return {"equations": [{"expression": wrap(f"{v} + pnd2[nodes=$at, d=$on]")}],
                "slices": {"at": [{"expression": "a"}], "on": [{"where": lo, "expression": "x"}, {"where": hi, "expression": "y"}]}}, [[lo], [hi]]
    if b == "subslice":
        return {"equations": [{"where": lo, "expression": wrap(f"{v} + $inner")}, {"where": hi, "expression": wrap(f"{v} * 4")}],
                "sub_expressions": {"inner": [{"expression": "pd[d=$on] * 2"}]}, "slices": {"on": [{"expression": "x"}]}}, [[lo], [hi]]


def holds2(cond, space):
    if space == "scalar":
        return {"p0": set("ab"), "not p0": set(), "pmissnan": set(), "not pmissnan": set("ab")}[cond]
    return holds(cond, space)


def custom(kind, metaname, space):
    """All components of one kind over one set of dimensions -> {name: (definition, equations valid)}"""
    out = {}
    for foreach, conds, v, p in [SPACES[space]]:
        for (wi, (w, where)), b in itertools.product(enumerate(conds.items()), BODIES if kind not in ("variables", "piecewise_constraints") else ["one"]):
            for active in (True, False):
                if kind == "variables":
                    d, eqs = {"bounds": {"min": 0, "max": 7 if space == "scalar" else p.replace("pts", "pnd")}, "domain": "integer" if wi % 2 else "real"}, None
                elif kind == "piecewise_constraints":
                    d, eqs = {"x_expression": v.replace("vts + ", ""), "y_expression": "v0 * 2", "x_values": "px", "y_values": "py"}, None
                else:
                    d, eqs = body(kind, space, b)
                if kind == "objectives":
                    d["sense"] = "maximise" if wi % 2 else "minimise"
                elif foreach:
                    d["foreach"] = foreach[::-1] if b == "two" else foreach
                if w and kind == "objectives":
                    continue
                if w:
                    d["where"] = w
                for k, x in METAS[metaname].items():
                    if k == "description" or (k == "unit" and kind in ("variables", "global_expressions", "postprocessed")) or (k == "default" and kind in ("variables", "global_expressions", "postprocessed")):
                        d[k] = float("inf") if x == ".inf" else x
                if not active:
                    d["active"] = False
                at = set(where)
                n_eq = 2 if kind == "variables" else 1 if kind == "piecewise_constraints" else sum(bool(at.intersection(*[holds2(c, space) for c in cs])) for cs in eqs)
                out[f"z_{space}_{wi}_{b}_{'on' if active else 'off'}"] = (d, n_eq if at and active else 0)
    return out


def tiny_model(math):
    import calliope
    from mc import tiny

    d = tiny.definition()
    d["data_definitions"]["px"] = {"data": [0, 5, 10], "index": [[0], [1], [2]], "dims": ["breakpoints"]}
    d["data_definitions"]["py"] = {"data": [0, 8, 9], "index": [[0], [1], [2]], "dims": ["breakpoints"]}
    math = {**math, "dimensions": {"breakpoints": {"dtype": "integer", "ordered": True, "iterator": "breakpoint"}},
            "parameters": {"px": {"default": float("nan"), "unit": "m", "description": "Places."}, "py": {"default": 0.5}}}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d["config"]["init"]["extra_math"] = ["mine"]
        return calliope.read_dict(d, math_dict={"mine": math})


def shown(text, fmt="md"):
    return {(g, n.split(" ")[0]): f for g, n, f in read(text, fmt)}


def count_equations(math):
    return len(re.findall(r"\\qquad ", math)) + len(re.findall(r"\\quad (?!\\text\{if \})", math))


def run_custom(kind, metaname, space, res):
    key = f"custom:{kind}:{metaname}:{space}"
    comps = custom(kind, metaname, space)
    math = {kind: {n: d for n, (d, _) in comps.items()}}
    if kind == "variables":  # conditions over switched-off variables
        math["constraints"] = {f"on_{n}": {"where": n, "equations": [{"expression": "v0 <= 8"}]} for n in comps if n.startswith("z_scalar")}
    m = tiny_model(math)
    docs = check(key, m, res, {n for n, (_, k) in comps.items() if k} if kind == "postprocessed" else None)
    now = shown(docs["valid"]["md"])
    for n, (d, k) in comps.items():
        f = now.get((kind, n))
        got = count_equations(f["math"]) if f and f["math"] else 0
        if got != k:
            res.fail(f"{key}:valid:{n}:applied", f"{n} {d}: {got} equations shown for the model, {k} apply")
    res.counts["components"] += len(comps)


def switchable(m):
    d = dump(m.math.build)
    used = set()
    for g in GROUPS[:6]:
        for n, c in d[g].items():
            used |= reads(g, c)[0] - {n}
    return [(g, n) for g in GROUPS[:6] for n in sorted(d[g]) if n not in used and g not in ("objectives",) and d[g][n].get("active", True)]


N_OFF = 8


def run_off(i, single, res):
    import calliope

    feats = ["bat", "conv"]
    items = switchable(systems.load(feats))
    take = [items[i]] if single and i < len(items) else [] if single else items[i::N_OFF]
    if not take:
        return
    math = {}
    for g, n in take:
        math.setdefault(g, {})[n] = {"active": False}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = systems.definition(feats)
        d["config"]["init"]["extra_math"] = [*d["config"]["init"]["extra_math"], "mine"]
        m = calliope.read_dict(d, math_dict={"mine": math})
    check("off:" + ("" if single else "every8th:") + take[0][1], m, res)


def run_example(name, res):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = getattr(calliope.examples, name)(subset={"timesteps": ["2005-01-01", "2005-01-01"]})
    check(f"example:{name}", m, res)


def cases(tier):
    for k, meta, space in itertools.product(GROUPS[:6], METAS, SPACES):
        if (k != "objectives" or space == "scalar") and (tier == "thorough" or meta == "full" or space in ("scalar", "pairs") or k in ("variables", "objectives")):
            yield {"kind": "custom", "group": k, "meta": meta, "space": space}
    for c in COMBOS:
        yield {"kind": "system", "features": [x for x in c if x in systems.F]}
    for f in systems.F:
        yield {"kind": "system", "features": [f]}
    yield {"kind": "spores"}
    for i in range(N_OFF):
        yield {"kind": "off", "i": i, "single": False}
    if tier == "thorough":
        for a, b in itertools.combinations(systems.F, 2):
            yield {"kind": "system", "features": [a, b]}
        for i in range(80):
            yield {"kind": "off", "i": i, "single": True}
        for n in ("national_scale", "urban_scale", "milp"):
            yield {"kind": "example", "name": n}


def run_case(case, res):
    if case["kind"] == "system":
        check("system:" + "+".join(case["features"]), systems.load(case["features"]), res)
    elif case["kind"] == "spores":
        m = systems.load(["bat"], change=lambda d: d["config"]["init"].update(mode="spores"))
        check("spores", m, res)
    elif case["kind"] == "custom":
        run_custom(case["group"], case["meta"], case["space"], res)
    elif case["kind"] == "off":
        run_off(case["i"], case["single"], res)
    else:
        run_example(case["name"], res)
    res.sample = {"case": case, "documents": res.counts.get("documents", 0), "components": res.evaluations}
