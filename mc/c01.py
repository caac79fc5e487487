"""C01: AttrDict behaves as a plain nested tree under its edit and merge rules.

Explicit-state exploration: breadth-first over all histories of the operation alphabet; a state is the
canonical plain tree of the reference model.  Every transition is executed on a real AttrDict, both on one
freshly built from the state and on the one produced by replaying the shortest history to that state, so
aliasing left behind by earlier operations is exercised.
"""
import copy
import itertools

from calliope.attrdict import AttrDict

PROPERTY, LEVEL = "C01", "model_checking"
RULE = "all operation histories up to the depth bound from the empty tree and from seed trees"
BOUNDS = {"quick": "histories of up to 4 operations over 4 seed trees (3 for replayed aliasing histories), alphabet of ~105 operations",
          "thorough": "histories of up to 5 operations"}
CHUNK = 16
KEYS = ["a", "b", "a.x", "a.y", "a.x.p", "b.x"]
VALUES = [1, None, {}, {"x": 2}, {"x": {"p": 3}, "y": 4}, {"x.p": 5}, [1, {"q": 1}]]
OTHERS = [
    {}, {"a": 7}, {"a": None}, {"a": {}}, {"a.x": 7}, {"a": {"x": None}}, {"a": {"x": 7, "y": 8}},
    {"a": {"x": {"p": 7}}, "b": 9}, {"a.x.p": None, "b.x": 7}, {"b": {"x": {}}},
    {"a": {"_REPLACE_": {"x": 7}}}, {"a": {"x": {"_REPLACE_": 7}}}, {"a": {"_REPLACE_": {}}, "b": 9},
    {"a": {"y": 1, "x": {"_REPLACE_": {"p": {"q": 1}, "r": 2}}}}, {"a.y": [7], "b": {"_REPLACE_": None}},
]
SEEDS = [{}, {"a": {"x": 1, "y": {"p": 2}}, "b": None}, {"a": {"x": {"p": 1, "r": 2}, "y": 3}, "b": {"x": 4}}, {"a": 0, "b": {"x": False}}]


class Refuse(Exception):
    """The operation must raise; the content afterwards is not specified."""


class Unspecified(Exception):
    """The documentation does not say; the transition is not judged."""


# ---------------------------------------------------------------- reference model on plain dicts
def expand(v):
    """Plain tree of a value in which dotted keys abbreviate nesting."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            out = ref_set(out, k, x)
        return out
    if isinstance(v, list):
        return [expand(i) for i in v]
    return v


def ref_set(t, key, value):
    t = copy.deepcopy(t)
    value = expand(value)
    head, _, rest = key.partition(".")
    if rest:
        sub = t.get(head)
        if sub is None:
            sub = {}
        if not isinstance(sub, dict):
            raise Refuse
        t[head] = ref_set(sub, rest, value)
    elif isinstance(value, dict) and head in t:
        if not isinstance(t[head], dict):
            if value:
                raise Unspecified  # a block set over a plain value
            raise Unspecified
        for k, x in value.items():
            t[head] = ref_set(t[head], k, x)
    else:
        t[head] = value
    return t


def ref_get(t, key):
    for part in key.split("."):
        if not isinstance(t, dict) or part not in t:
            raise Refuse
        t = t[part]
    return t


def ref_del(t, key):
    t = copy.deepcopy(t)
    head, _, rest = key.partition(".")
    if not isinstance(t, dict) or head not in t:
        raise Refuse
    if rest:
        if not isinstance(t[head], dict):
            raise Refuse
        t[head] = ref_del(t[head], rest)
        if not t[head]:
            del t[head]
    else:
        del t[head]
    return t


def leaves(t, pre=""):
    for k, v in t.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, f"{pre}{k}.")
        else:
            yield pre + k, v


def ref_union(t, other, override, replace):
    other = expand(other)
    mine = dict(leaves(t))
    wipes = {}
    for k, v in leaves(other):
        if replace and "_REPLACE_" in k:
            base = k.split("._REPLACE_")[0]
            wipes[base] = ref_get(other, base + "._REPLACE_")
            continue
        if k in mine and not override:
            raise Refuse
        try:
            cur = ref_get(t, k)
        except Refuse:
            cur = ""
        if isinstance(cur, dict):
            if v is None:
                continue
            if not override and v != {} and cur:
                raise Refuse  # a plain value over a non-empty block needs permission to override
        t = ref_set(t, k, v)
    for k, v in wipes.items():
        try:
            t = ref_del(t, k)
        except Refuse:
            pass  # nothing there yet: the replacement defines it
        t = ref_set(t, k, v)
    return t


def apply_ref(t, op):
    if op[0] == "set":
        return ref_set(t, op[1], op[2])
    if op[0] == "del":
        return ref_del(t, op[1])
    if op[0] == "union":
        return ref_union(t, op[1], op[2], op[3])
    if op[0] == "init":
        return expand(t)
    raise AssertionError(op)


# ---------------------------------------------------------------- implementation side
def apply_impl(d, op):
    """Apply to the real object; returns (object, other-argument snapshots)."""
    if op[0] == "set":
        d.set_key(op[1], copy.deepcopy(op[2]))
    elif op[0] == "del":
        d.del_key(op[1])
    elif op[0] == "union":
        other = AttrDict(copy.deepcopy(op[1])) if op[4] else copy.deepcopy(op[1])
        before = copy.deepcopy(dict(other) if not op[4] else other.as_dict())
        d.union(other, allow_override=op[2], allow_replacement=op[3])
        return other, before
    return None


def ops():
    for k, v in itertools.product(KEYS, VALUES):
        yield ["set", k, v]
    for k in KEYS:
        yield ["del", k]
    for o, ov, rp in itertools.product(OTHERS, (False, True), (False, True)):
        if rp or "_REPLACE_" not in str(o):
            yield ["union", o, ov, rp, True]
    for o in OTHERS[6:9] + OTHERS[10:12]:
        yield ["union", o, True, True, False]


OPS = list(ops())
OP3 = [o for o in OPS if o[0] != "union" or "_REPLACE_" in str(o)]


def canon(t):
    return repr(sort(t))


def sort(t):
    if isinstance(t, dict):
        return {k: sort(t[k]) for k in sorted(t)}
    return [sort(i) for i in t] if isinstance(t, list) else t


def plain(d):
    """Content of the object read with nothing but the dict interface."""
    if isinstance(d, dict):
        return {k: plain(dict.__getitem__(d, k)) for k in dict.keys(d)}
    return [plain(i) for i in d] if isinstance(d, list) else d


def typed(d):
    """Every nested block must itself be an AttrDict, or nested access breaks."""
    return all(isinstance(v, AttrDict) and typed(v) for v in dict.values(d) if isinstance(v, dict))


def bfs(depth):
    """All reference states up to depth-1 with the shortest history leading to each."""
    seen, layers = {}, []
    frontier = []
    for s, seed in enumerate(SEEDS):
        if canon(seed) not in seen:
            seen[canon(seed)] = True
            frontier.append((seed, [s]))
    for _ in range(depth):
        layers.append(frontier)
        nxt = []
        for t, hist in frontier:
            for i, op in enumerate(OPS):
                try:
                    n = apply_ref(t, op)
                except (Refuse, Unspecified):
                    continue
                if canon(n) not in seen:
                    seen[canon(n)] = True
                    nxt.append((n, hist + [i]))
        frontier = nxt
    return [x for layer in layers for x in layer]


def cases(tier):
    out = [["state", hist] for _, hist in bfs(4 if tier == "quick" else 5)]
    # aliasing: every pair of operations after a copying or merging operation
    out += [["alias", s, i] for s in range(len(SEEDS)) for i, op in enumerate(OPS) if op[0] == "union" or op[0] == "set" and isinstance(op[2], (dict, list))]
    return out


def check_reads(d, t, res, where):
    key = f"{where}"
    if plain(d) != t:
        res.fail(f"content:{key}", f"content {plain(d)!r} instead of {t!r}")
        return
    if not typed(d):
        res.fail(f"typed:{key}", f"a nested block of {t!r} is not an AttrDict")
    if d.as_dict() != t:
        res.fail(f"as_dict:{key}", f"as_dict() gives {d.as_dict()!r} for {t!r}")
    flat = dict(leaves(t))
    if d.as_dict(flat=True) != flat:
        res.fail(f"flat:{key}", f"flat view {d.as_dict(flat=True)!r} instead of {flat!r}")
    if sorted(d.keys_nested()) != sorted(flat):
        res.fail(f"keys:{key}", f"keys_nested {d.keys_nested()!r} instead of {sorted(flat)!r}")
    for k in KEYS + ["a.x.q", "c", "a.y.p"]:
        try:
            want = ref_get(t, k)
        except Refuse:
            if d.get_key(k, "dflt") != "dflt":
                res.fail(f"get:{k}:{key}", f"get_key({k!r}) of absent key in {t!r} returned {d.get_key(k, 'dflt')!r}")
            try:
                got = d.get_key(k)
                res.fail(f"get:{k}:{key}", f"get_key({k!r}) of absent key returned {got!r}")
            except Exception:
                pass
            continue
        if plain(d.get_key(k)) != want or plain(d.get_key(k, "dflt")) != want:
            res.fail(f"get:{k}:{key}", f"get_key({k!r}) gives {d.get_key(k)!r} instead of {want!r}")
    cp = d.copy()
    if cp != d or plain(cp) != t or not isinstance(cp, AttrDict) or not typed(cp):
        res.fail(f"copy:{key}", f"copy of {t!r} is {cp!r}")
    cp2 = copy.deepcopy(d)
    for c, how in ((cp, "copy"), (cp2, "deepcopy")):
        for k in list(flat):
            if not isinstance(flat[k], dict):
                c.set_key(k, "changed")
        c.set_key("zz.new", 1)
        if plain(d) != t:
            res.fail(f"{how}-shares:{key}", f"editing a {how} changed its source {t!r} -> {plain(d)!r}")


def step(d, t, op, res, where):
    """One transition on object d whose reference content is t; returns new reference or None."""
    res.transitions += 1
    try:
        want = apply_ref(t, op)
    except Unspecified:
        res.counts["unspecified"] += 1
        return None
    except Refuse:
        res.counts["refused"] += 1
        try:
            apply_impl(d, op)
        except Exception as e:
            if op[0] == "union" and not op[2] and "_REPLACE_" not in str(op[1]) and not isinstance(e, KeyError):
                res.fail(f"error-type:{where}", f"{op!r} on {t!r} raised {e!r}, not KeyError")
            return None
        res.fail(f"accepted:{where}", f"{op!r} on {t!r} must be refused but gave {plain(d)!r}")
        return None
    got = apply_impl(d, op)
    res.traces += 1
    if plain(d) != want:
        res.fail(f"step:{where}", f"{op!r} on {t!r} gave {plain(d)!r} instead of {want!r}")
        return None
    if got is not None and plain(got[0]) != got[1]:
        res.fail(f"argument:{where}", f"{op!r} changed its right-hand side to {plain(got[0])!r}")
    return want


def run_case(case, res):
    if case[0] == "state":
        hist = case[1]
        t = copy.deepcopy(SEEDS[hist[0]])
        for i in hist[1:]:
            t = apply_ref(t, OPS[i])
        res.states += 1
        res.sample = {"history": [SEEDS[hist[0]]] + [OPS[i] for i in hist[1:]], "state": t}
        res.outcome(canon(t))
        check_reads(AttrDict(copy.deepcopy(t)), t, res, canon(t))
        for op in OPS:
            fresh = AttrDict(copy.deepcopy(t))
            n = step(fresh, t, op, res, f"{canon(t)}|{op}")
            if n is not None and len(hist) < 3:
                check_reads(fresh, n, res, f"{canon(t)}|{op}")
    else:
        # Replay: object -> op1 (keeps its argument) -> op2 -> op3 on the same object; the argument of op1 and a copy
        # of the object taken before op2 must not change.
        _, s, i = case
        op1 = OPS[i]
        t0 = SEEDS[s]
        for op2 in OPS:
            d = AttrDict(copy.deepcopy(t0))
            try:
                t1 = apply_ref(t0, op1)
            except (Refuse, Unspecified):
                return
            if op1[0] == "set":
                arg = AttrDict(copy.deepcopy(op1[2])) if isinstance(op1[2], dict) else copy.deepcopy(op1[2])
                snap = copy.deepcopy(plain(arg))
                d.set_key(op1[1], arg)
                arg_kept = None  # set_key stores the object it is given
            else:
                arg_kept = AttrDict(copy.deepcopy(op1[1])) if op1[4] else copy.deepcopy(op1[1])
                snap = copy.deepcopy(plain(arg_kept))
                d.union(arg_kept, allow_override=op1[2], allow_replacement=op1[3])
            cp = d.copy()
            t2 = step(d, t1, op2, res, f"{canon(t0)}|{op1}|{op2}")
            if plain(cp) != t1:
                res.fail(f"copy-shares:{canon(t0)}|{op1}|{op2}", f"{op2!r} after copying changed the copy from {t1!r} to {plain(cp)!r}")
            if arg_kept is not None and plain(arg_kept) != snap:
                res.fail(f"argument-shared:{canon(t0)}|{op1}", f"{op2!r} after merging {op1[1]!r} changed that argument to {plain(arg_kept)!r}")
            if t2 is not None:
                for op3 in OP3:
                    d3 = d.copy()
                    step(d3, t2, op3, res, f"{canon(t0)}|{op1}|{op2}|{op3}")
        res.states += 1
