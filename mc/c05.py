"""C05: a where string selects exactly the index elements for which the boolean formula is true.

Every formula of the bounded grammar is given to a real backend (as condition of a global expression) and compared,
element by element, with an independent evaluation over the data the model was defined from.
"""
import itertools
import math
import warnings

from mc import tiny

PROPERTY, LEVEL = "C05", "exploration"
RULE = "every where-string syntax tree of the stated size over the atom alphabet; non-trivial = the formula selects some but not all elements"
BOUNDS = {"quick": "all 53 atoms with and without not over 9 foreach lists; all pairs of 16 atoms with and/or and not; all chains of three of 3 atoms with every operator, bracketing and negation; split of a formula over component and equation conditions",
          "thorough": "pairs of all atoms; chains of three over 6 atoms; chains of four over 3 atoms"}
CHUNK = 40
BUDGET = {"quick": 400}

NODES, TECHS, CARR = ["a", "b"], ["s", "t"], ["e", "h"]
TS, D, K = [0, 1, 2], ["x", "y", "z"], [1, 2, 3]
DIMS = {"nodes": NODES, "techs": TECHS, "carriers": CARR, "timesteps": TS, "d": D, "k": K}
CIN = {("a", "t", "e")}
COUT = {("a", "s", "e"), ("a", "t", "h"), ("b", "s", "e")}
DEFM = CIN | COUT
INF = math.inf
NAN = math.nan
# name -> (dims, data, default)
DATA = {
    "p0": ((), {(): 2}, NAN), "pz": ((), {}, 5),
    "pn": (("nodes",), {("a",): 1}, NAN), "pnd": (("nodes",), {("b",): 3}, 4),
    "pt": (("techs",), {("s",): 0, ("t",): INF}, NAN),
    "pnt": (("nodes", "techs"), {("a", "s"): 1, ("b", "s"): 3}, NAN),
    "pntd": (("nodes", "techs"), {("a", "t"): 2, ("b", "s"): 9}, 7),
    "pts": (("timesteps",), {(0,): 1, (1,): 2, (2,): 3}, NAN),
    "pd": (("d",), {("x",): 1, ("z",): 4}, NAN),
    "pnd2": (("nodes", "d"), {("a", "x"): 6, ("b", "y"): -1}, 2),
    "pnk": (("nodes", "k"), {("a", 1): 1, ("a", 2): -INF, ("b", 3): 3}, 0.5),
    "pmiss": ((), {}, 3), "pmissnan": ((), {}, NAN),
    "ls": (("techs",), {("s",): "foo"}, NAN), "lsd": (("techs",), {("t",): "bar"}, "foo"),
    "ldn": (("nodes",), {("a",): "x", ("b",): "z"}, NAN), "lmiss": ((), {}, "u"),
    "base_tech": (("techs",), {("s",): "supply", ("t",): "conversion"}, NAN),
    "lb": (("nodes",), {("a",): True, ("b",): False}, NAN),
}


def raw(name, i):
    dims, data, _ = DATA[name]
    return data.get(tuple(i[d] for d in dims))


def exists(name):
    def f(i):
        v = raw(name, i)
        if isinstance(v, bool):
            return v
        return v is not None and v not in (INF, -INF)
    return f


def val(name, i):
    v = raw(name, i)
    return DATA[name][2] if v is None else v


def cmp(fn, op, rhs):
    import operator as o
    ops = {"<": o.lt, ">": o.gt, "==": o.eq, ">=": o.ge, "<=": o.le}

    def f(i):
        v = fn(i)
        if isinstance(v, float) and math.isnan(v):
            return False
        return ops[op](v, rhs)
    return f


def anyover(fn, dims):
    def f(i):
        return any(fn({**i, **dict(zip(dims, c))}) for c in itertools.product(*[DIMS[d] for d in dims]))
    return f


def sumover(name, dims):
    def f(i):
        vs = [val(name, {**i, **dict(zip(dims, c))}) for c in itertools.product(*[DIMS[d] for d in dims])]
        vs = [v for v in vs if not (isinstance(v, float) and math.isnan(v))]
        return sum(vs) if vs else NAN
    return f


def c3(s):
    return lambda i: (i["nodes"], i["techs"], i["carriers"]) in s


def defined(want, within, how):
    """members of `within` for which the given members are (any/all) defined"""
    def f(i):
        rest = [d for d in ("nodes", "techs", "carriers") if d != within and d not in want]
        combos = list(itertools.product(*want.values()))

        def one(c):
            e = {**i, **dict(zip(want, c))}
            return any((({**e, **dict(zip(rest, r))})["nodes"], ({**e, **dict(zip(rest, r))})["techs"], ({**e, **dict(zip(rest, r))})["carriers"]) in DEFM
                       for r in itertools.product(*[DIMS[d] for d in rest]))
        return (all if how == "all" else any)(one(c) for c in combos)
    return f


def arith(fn):
    def f(i):
        try:
            return fn(i)
        except ZeroDivisionError:
            return NAN
    return f


VNT = exists("pnt")
ATOMS = [
    ("True", lambda i: True, ()), ("False", lambda i: False, ()), ("TRUE", lambda i: True, ()), ("false", lambda i: False, ()),
    ("p0", exists("p0"), ()), ("pn", exists("pn"), ("nodes",)), ("pnd", exists("pnd"), ("nodes",)), ("pt", exists("pt"), ("techs",)),
    ("pnt", exists("pnt"), ("nodes", "techs")), ("pntd", exists("pntd"), ("nodes", "techs")), ("pts", exists("pts"), ("timesteps",)),
    ("pd", exists("pd"), ("d",)), ("pnd2", exists("pnd2"), ("nodes", "d")), ("pnk", exists("pnk"), ("nodes", "k")),
    ("pmiss", exists("pmiss"), ()), ("pmissnan", exists("pmissnan"), ()), ("lmiss", exists("lmiss"), ()),
    ("ls", exists("ls"), ("techs",)), ("lsd", exists("lsd"), ("techs",)), ("lb", exists("lb"), ("nodes",)),
    ("carrier_in", c3(CIN), ("nodes", "techs", "carriers")), ("carrier_out", c3(COUT), ("nodes", "techs", "carriers")),
    ("v0", lambda i: True, ()), ("vn", lambda i: True, ("nodes",)), ("vnt", lambda i: VNT(i), ("nodes", "techs")),
    ("pn==1", cmp(lambda i: val("pn", i), "==", 1), ("nodes",)),
    ("pnd>=4", cmp(lambda i: val("pnd", i), ">=", 4), ("nodes",)), ("pnd<4", cmp(lambda i: val("pnd", i), "<", 4), ("nodes",)),
    ("pnd>3", cmp(lambda i: val("pnd", i), ">", 3), ("nodes",)), ("pnd<=3", cmp(lambda i: val("pnd", i), "<=", 3), ("nodes",)),
    ("pt==inf", cmp(lambda i: val("pt", i), "==", INF), ("techs",)), ("pt>=0", cmp(lambda i: val("pt", i), ">=", 0), ("techs",)),
    ("pntd<=7", cmp(lambda i: val("pntd", i), "<=", 7), ("nodes", "techs")),
    ("pmiss==3", cmp(lambda i: 3, "==", 3), ()), ("pmissnan>2", lambda i: False, ()), ("lmiss==u", lambda i: True, ()),
    ("ls==foo", cmp(lambda i: val("ls", i), "==", "foo"), ("techs",)), ("lsd==foo", cmp(lambda i: val("lsd", i), "==", "foo"), ("techs",)),
    ("base_tech==supply", cmp(lambda i: val("base_tech", i), "==", "supply"), ("techs",)),
    ("lb==False", cmp(lambda i: val("lb", i), "==", False), ("nodes",)),
    ("pnd2>2", cmp(lambda i: val("pnd2", i), ">", 2), ("nodes", "d")),
    ("pnk==0.5", cmp(lambda i: val("pnk", i), "==", 0.5), ("nodes", "k")),
    ("config.backend==pyomo", lambda i: True, ()), ("config.ensure_feasibility==True", lambda i: False, ()), ("config.objective==o1", lambda i: True, ()),
    ("p0*2 + pnd>7.5", cmp(lambda i: 4 + val("pnd", i), ">", 7.5), ("nodes",)),
    ("pnd - pn>2", cmp(lambda i: val("pnd", i) - val("pn", i), ">", 2), ("nodes",)),
    ("-pnd + 2 * p0 ** 2<=4", cmp(lambda i: -val("pnd", i) + 8, "<=", 4), ("nodes",)),
    ("nodes==a", lambda i: i["nodes"] == "a", ("nodes",)), ("techs==zz", lambda i: False, ("techs",)), ("d==x", lambda i: i["d"] == "x", ("d",)),
    ("k>=2", lambda i: i["k"] >= 2, ("k",)),
    ("timesteps==get_val_at_index(timesteps=0)", lambda i: i["timesteps"] == 0, ("timesteps",)),
    ("timesteps>get_val_at_index(timesteps=-2)", lambda i: i["timesteps"] > 1, ("timesteps",)),
    ("[a] in nodes", lambda i: i["nodes"] == "a", ("nodes",)), ("[t, s] in techs", lambda i: True, ("techs",)), ("[zz] in nodes", lambda i: False, ("nodes",)),
    ("[x,z] in d", lambda i: i["d"] in "xz", ("d",)), ("[1, 3] in k", lambda i: i["k"] in (1, 3), ("k",)),
    ("any(pn, over=nodes)", anyover(exists("pn"), ["nodes"]), ()), ("any(pnt, over=techs)", anyover(exists("pnt"), ["techs"]), ("nodes",)),
    ("any(pnt, over=nodes)", anyover(exists("pnt"), ["nodes"]), ("techs",)),
    ("any(pnt, over=[nodes, techs])", anyover(exists("pnt"), ["nodes", "techs"]), ()), ("any(pn, over=techs)", exists("pn"), ("nodes",)),
    ("any(pnd2, over=d)", anyover(exists("pnd2"), ["d"]), ("nodes",)), ("any(vnt, over=nodes)", anyover(VNT, ["nodes"]), ("techs",)),
    ("any(carrier_out, over=carriers)", anyover(c3(COUT), ["carriers"]), ("nodes", "techs")),
    ("any(pmiss, over=nodes)", lambda i: False, ()),
    ("defined(techs=[s,t], within=nodes, how=all)", defined({"techs": ["s", "t"]}, "nodes", "all"), ("nodes",)),
    ("defined(techs=[s,t], within=nodes, how=any)", defined({"techs": ["s", "t"]}, "nodes", "any"), ("nodes",)),
    ("defined(techs=t, within=nodes, how=any)", defined({"techs": ["t"]}, "nodes", "any"), ("nodes",)),
    ("defined(carriers=[h], within=techs, how=any)", defined({"carriers": ["h"]}, "techs", "any"), ("techs",)),
    ("defined(carriers=[e,h], within=techs, how=all)", defined({"carriers": ["e", "h"]}, "techs", "all"), ("techs",)),
    ("defined(nodes=[a,b], techs=[s], within=carriers, how=all)", defined({"nodes": ["a", "b"], "techs": ["s"]}, "carriers", "all"), ("carriers",)),
    ("sum(pnt, over=nodes)>=4", cmp(sumover("pnt", ["nodes"]), ">=", 4), ("techs",)),
    ("sum(pnd, over=nodes)==7", cmp(sumover("pnd", ["nodes"]), "==", 7), ()),
]
A = {a[0]: a for a in ATOMS}
FOREACH = [[], ["nodes"], ["techs"], ["nodes", "techs"], ["techs", "nodes", "carriers"], ["carriers"], ["nodes", "timesteps"], ["d", "nodes"], ["nodes", "techs", "k"]]
PAIR = ["pn", "pnd", "pt", "pnt", "pmiss", "lb", "pnd>=4", "pn==1", "pntd<=7", "lsd==foo", "vnt", "carrier_in", "[a] in nodes", "any(pnt, over=techs)",
        "config.backend==pyomo", "timesteps==get_val_at_index(timesteps=0)"]
TRI_Q = ["pn", "ls==foo", "pnt"]
TRI_T = ["pn", "ls==foo", "pnt", "pmiss", "carrier_in", "any(pnt, over=nodes)"]


# A formula is nested lists: ["atom", s] | ["not", f] | ["and"/"or", f, g] | ["br", f]
def shapes3(atoms):
    for a, b, c in itertools.product(atoms, repeat=3):
        for o1, o2 in itertools.product(("and", "or"), repeat=2):
            for n in itertools.product((0, 1), repeat=3):
                x, y, z = [["not", ["atom", s]] if k else ["atom", s] for s, k in zip((a, b, c), n)]
                yield [o2, [o1, x, y], z]  # as written: left to right
                yield [o1, x, ["br", [o2, y, z]]]
                yield [o1, x, ["not", ["br", [o2, y, z]]]]


def text(f, up):
    o, *r = f
    if o == "atom":
        return r[0]
    if o == "br":
        return f"({text(r[0], up)})"
    if o == "not":
        return ("NOT " if up else "not ") + text(r[0], up)
    return f"{text(r[0], up)} {o.upper() if up else o} {text(r[1], up)}"


def truth(f, i):
    o, *r = f
    if o == "atom":
        return bool(A[r[0]][1](i))
    if o == "br":
        return truth(r[0], i)
    if o == "not":
        return not truth(r[0], i)
    return (truth(r[0], i) and truth(r[1], i)) if o == "and" else (truth(r[0], i) or truth(r[1], i))


def fdims(f):
    return set(A[f[1]][2]) if f[0] == "atom" else set().union(*(fdims(x) for x in f[1:]))


def cases(tier):
    q = tier == "quick"
    for s in A:
        for fe in FOREACH:
            yield ["atom", ["atom", s], fe]
            yield ["atom", ["not", ["atom", s]], fe]
    names = PAIR if q else list(A)
    for a, b in itertools.product(names, repeat=2):
        for o in ("and", "or"):
            for n in itertools.product((0, 1), repeat=2):
                x, y = [["not", ["atom", s]] if k else ["atom", s] for s, k in zip((a, b), n)]
                yield ["pair", [o, x, y], ["nodes", "techs"]]
            yield ["pair", ["not", ["br", [o, ["atom", a], ["atom", b]]]], ["techs", "nodes"]]
    for f in shapes3(TRI_Q if q else TRI_T):
        yield ["triple", f, ["nodes", "techs"]]
    for a, b in itertools.product(names, repeat=2):
        if fdims(["atom", a]) | fdims(["atom", b]) <= {"nodes", "techs"}:
            yield ["split", ["and", ["atom", a], ["not", ["atom", b]]], ["nodes", "techs"]]
            yield ["split", ["and", ["not", ["atom", a]], ["br", ["or", ["atom", b], ["atom", "pnt"]]]], ["nodes", "techs"]]
    if not q:
        for f in shapes3(TRI_Q):
            for s in TRI_Q:
                for o in ("and", "or"):
                    yield ["quad", [o, f, ["atom", s]], ["nodes", "techs"]]
                    yield ["quad", [o, ["atom", s], ["br", f]], ["nodes", "techs"]]


_M = {}


def backend():
    if "b" not in _M:
        import calliope
        calliope.set_log_verbosity("CRITICAL", include_solver_output=False)
        _M["b"] = tiny.model(data={"pnk": {"data": [1, -INF, 3], "index": [["a", 1], ["a", 2], ["b", 3]], "dims": ["nodes", "k"]}}).backend
    return _M["b"]


def run_case(case, res):
    fam, f, fe = case
    b = backend()
    res.evaluations += 1
    d = {"foreach": fe, "equations": [{"expression": "1"}]}
    if fam == "split":
        d["where"] = text(f[1], False)
        d["equations"] = [{"where": text(f[2], True), "expression": "1"}]
    else:
        d["where"] = text(f, len(str(f)) % 2 == 0)
    # oracle
    all_dims = ["nodes", "techs", "carriers"] + sorted((fdims(f) | set(fe)) - {"nodes", "techs", "carriers"})
    want = set()
    for combo in itertools.product(*[DIMS[x] for x in all_dims]):
        i = dict(zip(all_dims, combo))
        if (i["nodes"], i["techs"], i["carriers"]) in DEFM and truth(f, i):
            want.add(tuple(i[x] for x in fe))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b.add_global_expression("gx", d)
        try:
            da = b.get_global_expression("gx", as_backend_objs=False)
        finally:
            b.delete_component("gx", "global_expressions")
    got = set()
    if da.dims:
        assert set(da.dims) == set(fe), da.dims
        ts = list(tiny_ts())
        s = da.transpose(*fe).to_series().dropna()
        for ix in s.index:
            ix = ix if isinstance(ix, tuple) else (ix,)
            got.add(tuple(ts.index(v) if x == "timesteps" else (int(v) if x == "k" else v) for x, v in zip(fe, ix)))
    elif da.notnull().item():
        got = {()} if not fe else set(itertools.product(*[DIMS[x] for x in fe]))
    n_all = len({tuple(i) for i in itertools.product(*[DIMS[x] for x in fe])})
    if 0 < len(want) < n_all:
        res.nontrivial += 1
    res.outcome((d["where"], sorted(map(str, want))))
    if res.sample is None:
        res.sample = {"case": case, "where": d["where"], "selected": sorted(map(str, got))}
    if got != want:
        res.fail(f"where:{d['where']}|{d['equations'][0].get('where', '')}|{fe}",
                 f"where `{d['where']}` (equation: {d['equations'][0].get('where', '-')}) over {fe} selects {sorted(map(str, got))}, expected {sorted(map(str, want))}", case)


def tiny_ts():
    return backend().inputs.timesteps.values
