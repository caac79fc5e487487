"""C03: configuration objects are immutable; an update equals a fresh start from the merged options.

Explicit-state exploration of update histories.  State = set of explicitly chosen options (plain dict, the reference
model); transitions = updates of the alphabet, each applied to the real object reached by replaying the history.
"""
import copy
import itertools
import pickle

import mc.fast  # noqa: F401
from calliope.schemas.config_schema import CalliopeConfig
from mc.c01 import expand

PROPERTY, LEVEL = "C03", "model_checking"
RULE = "all update histories up to the depth bound"
BOUNDS = {"quick": "histories of up to 3 valid updates (each followed by every valid and invalid update); pairs of options in one update",
          "thorough": "histories of up to 4 updates"}
CHUNK = 8

DEFAULTS = {  # documented defaults, the oracle for options nobody set
    "init": dict(name=None, calliope_version=None, broadcast_input_data=False, subset={}, resample={}, time_cluster=None, datetime_format="ISO8601",
                 date_format="ISO8601", distance_unit="km", mode="base", extra_math=[], math_paths={}, pre_validate_math_strings=False),
    "build": dict(backend="pyomo", ensure_feasibility=False, objective="min_cost_optimisation", operate=dict(window="24h", horizon="48h")),
    "solve": dict(postprocessing_active=True, save_logs=None, shadow_prices=[], solver="cbc", solver_io=None, solver_options={}, zero_threshold=1e-10,
                  spores=dict(scoring_algorithm="integer", number=3, save_per_spore_path=None, use_latest_results=False, tracking_parameter=None,
                              score_threshold_factor=0.1)),
}
VALID = [
    {"init": {"name": "n1"}}, {"init.name": "n2"}, {"init": {"name": None}}, {"init.mode": "operate"}, {"init": {"mode": "spores", "extra_math": ["milp"]}},
    {"init": {"extra_math": ["milp", "storage_inter_cluster"]}}, {"init.extra_math": []}, {"init.subset.timesteps": ["2005-01", "2005-02"]},
    {"init": {"subset": {"timesteps": ["2005-03", "2005-04"], "nodes": ["a"]}}}, {"init.resample.timesteps": "2h"}, {"init": {"resample": {"timesteps": "3h"}}},
    {"init.broadcast_input_data": True, "init.distance_unit": "m"}, {"init.subset.timesteps": None}, {"init.time_cluster": "cl"},
    {"build": {"backend": "gurobi"}}, {"build.operate.window": "6h"}, {"build": {"operate": {"horizon": "36h"}, "ensure_feasibility": True}},
    {"build.ensure_feasibility": False}, {"build.objective": "other"}, {"build": {"operate": {"window": "24h", "horizon": "48h"}}},
    {"solve": {"solver": "glpk", "zero_threshold": 0}}, {"solve.zero_threshold": 1e-6}, {"solve.solver_options": {"threads": 1}},
    {"solve": {"solver_options": {"gap": {"rel": 0.1}}}}, {"solve.solver_options": {}}, {"solve.shadow_prices": ["system_balance"]}, {"solve.shadow_prices": []},
    {"solve.spores": {"number": 5, "scoring_algorithm": "random"}}, {"solve.spores.number": 1}, {"solve.spores.tracking_parameter": "tr"},
    {"solve.spores.score_threshold_factor": 0}, {"solve": {"spores": {"use_latest_results": True}, "postprocessing_active": False}},
    {"init": {}, "build": {}, "solve": {"spores": {}}}, {}, {"init": {"name": "n3"}, "build.backend": "pyomo", "solve.solver": "cbc"},
]
INVALID = [
    {"foo": 1}, {"init.foo": 1}, {"build": {"operate": {"foo": "1h"}}}, {"solve.spores.foo": 1}, {"init.mode": "plan"}, {"init": {"mode": None}},
    {"init.extra_math": ["milp", "milp"]}, {"init.extra_math": "milp"}, {"init.distance_unit": "mile"}, {"init.subset.timesteps": []},
    {"init.resample.timesteps": ["2h"]}, {"build.backend": "glpk"}, {"build.ensure_feasibility": "maybe"}, {"build.operate.window": ["1h"]},
    {"solve.spores.scoring_algorithm": "best"}, {"solve.spores.number": "many"}, {"solve.spores.score_threshold_factor": -0.1},
    {"solve.shadow_prices": ["a", "a"]}, {"solve.shadow_prices": "a"}, {"solve.zero_threshold": "small"}, {"solve.solver": None}, {"solve.solver_options": "x"},
    {"init.time_cluster": "1 x"}, {"build.objective": None}, {"init": {"name": "ok", "mode": "bad"}}, {"build.backend": "gurobi", "solve.spores.number": None},
    {"build.operate": {"window": "48h", "horizon": "24h"}}, {"build.operate.horizon": "5h"}, {"build": {"operate": {"window": "3D"}}},
]
FREE = {("solve", "solver_options")}  # a free-form option value: replaced as a whole


def merge(a, b, path=()):
    a = copy.deepcopy(a)
    for k, v in b.items():
        p = path + (k,)
        if isinstance(v, dict) and isinstance(a.get(k), dict) and p not in FREE:
            a[k] = merge(a[k], v, p)
        else:
            a[k] = copy.deepcopy(v)
    return a


def bfs(depth):
    seen, frontier, out = {repr({})}, [((), {})], []
    for _ in range(depth):
        out += frontier
        nxt = []
        for h, st in frontier:
            for i, u in enumerate(VALID):
                n = merge(st, expand(u))
                full = repr(sorted_tree(merge(DEFAULTS, n)))
                if full not in seen:
                    seen.add(full)
                    nxt.append((h + (i,), n))
        frontier = nxt
    return out


def sorted_tree(t):
    return {k: sorted_tree(t[k]) for k in sorted(t)} if isinstance(t, dict) else t


def cases(tier):
    out = [["hist", list(h)] for h, _ in bfs(3 if tier == "quick" else 4)]
    out += [["pair", i] for i in range(len(VALID))]
    out += [["frozen"]]
    return out


def norm(dump):
    return sorted_tree({k: norm(v) if isinstance(v, dict) else str(v) if type(v).__module__ == "pathlib" else v for k, v in dump.items()})


def same(cfg, options, res, key):
    want = sorted_tree(merge(DEFAULTS, options))
    want["init"]["subset"] = {k: v for k, v in want["init"]["subset"].items() if v is not None}
    got = norm(cfg.model_dump())
    got["init"]["subset"] = {k: v for k, v in got["init"]["subset"].items() if v is not None}  # None: no subset
    if got != want:
        diff = [(g, k, got[g][k], want[g].get(k)) for g in got for k in got[g] if got[g][k] != want.get(g, {}).get(k)]
        res.fail(f"value:{key}", f"options differ (group, option, got, expected): {diff}")
    res.outcome(got)


def run_case(case, res):
    if case[0] == "hist":
        hist = [VALID[i] for i in case[1]]
        state, cfg, chain = {}, CalliopeConfig(), []
        for u in hist:
            chain.append((cfg, norm(cfg.model_dump())))
            cfg = cfg.update(copy.deepcopy(u))
            state = merge(state, expand(u))
        key = repr(case[1])
        res.states += 1
        res.sample = {"history": hist}
        same(cfg, state, res, key)
        again = CalliopeConfig(**copy.deepcopy(state))
        same(again, state, res, key + "fresh")
        reload = CalliopeConfig(**cfg.model_dump())
        if reload != cfg or again.update({"init.subset.timesteps": ["x"]}) != cfg.update({"init.subset.timesteps": ["x"]}):
            res.fail(f"reload:{key}", "a configuration rebuilt from its dump (or from the merged options) differs")
        jreload = CalliopeConfig.model_validate_json(cfg.model_dump_json())
        if jreload != cfg:
            res.fail(f"json:{key}", "a configuration rebuilt from its JSON dump differs")
        if copy.deepcopy(cfg) != cfg or pickle.loads(pickle.dumps(cfg)) != cfg:
            res.fail(f"copy:{key}", "a copied configuration differs")
        before = norm(cfg.model_dump())
        for i, u in enumerate(VALID):
            res.transitions += 1
            res.traces += 1
            arg = copy.deepcopy(u)
            new = cfg.update(arg)
            same(new, merge(state, expand(u)), res, f"{key}+{i}")
            if new is cfg and expand(u):
                res.fail(f"identity:{key}+{i}", "update returned the same object")
            if arg != u:
                res.fail(f"arg:{key}+{i}", f"update changed its argument to {arg!r}")
            # editing mutable values of the new configuration must not reach the old one
            new.solve.solver_options["leak"] = 1
            new.init.extra_math.append("leak")
            new.solve.shadow_prices.append("leak")
            if norm(cfg.model_dump()) != before:
                res.fail(f"shared:{key}+{i}", f"after update {u!r}, editing the new configuration changed the old one")
                return
        for i, u in enumerate(INVALID):
            res.transitions += 1
            for how in ("update", "fresh"):
                try:
                    if how == "update":
                        got = cfg.update(copy.deepcopy(u))
                    else:
                        CalliopeConfig(**expand(merge(state, expand(u))))
                except Exception:
                    res.counts["rejected"] += 1
                    continue
                if how == "update" and "foo" in repr(u) and got == cfg:
                    res.fail(f"undefined-option-ignored:{u!r}", f"update ignored the undefined option in {u!r} instead of refusing it")
                    continue
                res.fail(f"accepted:{how}:{key}+{u!r}", f"invalid options {u!r} were accepted ({how})")
        if norm(cfg.model_dump()) != before:
            res.fail(f"mutated:{key}", "updates changed the original configuration")
        for old, dump in chain:
            if norm(old.model_dump()) != dump:
                res.fail(f"chain:{key}", "a later update changed an earlier configuration")
    elif case[0] == "pair":
        a = VALID[case[1]]
        for b in VALID:
            u = merge(expand(a), expand(b))
            res.transitions += 1
            res.traces += 1
            same(CalliopeConfig().update(copy.deepcopy(u)), u, res, f"pair{a!r}{b!r}")
            same(CalliopeConfig(**copy.deepcopy(u)), u, res, f"pairfresh{a!r}{b!r}")
        for b in INVALID:
            try:
                got = CalliopeConfig().update(merge(expand(a), expand(b)))
            except Exception:
                continue
            if "foo" in repr(b) and got == CalliopeConfig().update(a):
                res.fail(f"undefined-option-ignored:{b!r}", f"update ignored the undefined option in {b!r} instead of refusing it")
                continue
            res.fail(f"accepted:pair{a!r}{b!r}", "invalid options accepted next to valid ones")
        res.states += 1
    else:
        cfg = CalliopeConfig(**{"init": {"subset": {"timesteps": ["2005"]}}})
        before = norm(cfg.model_dump())
        tries = [("cfg", cfg, ["init", "build", "solve"])]
        tries += [(g, getattr(cfg, g), list(DEFAULTS[g])) for g in DEFAULTS]
        tries += [("spores", cfg.solve.spores, list(DEFAULTS["solve"]["spores"])), ("operate", cfg.build.operate, ["window", "horizon"])]
        for name, obj, attrs in tries:
            for a in attrs + ["new_option"]:
                res.transitions += 1
                for how in ("attr", "item"):
                    try:
                        if how == "attr":
                            setattr(obj, a, "changed")
                        else:
                            obj[a] = "changed"
                    except Exception:
                        res.counts["frozen"] += 1
                        continue
                    res.fail(f"frozen:{name}.{a}:{how}", "a configuration value could be assigned")
        try:
            cfg.init.subset["timesteps"] = ["2006"]
            res.fail("frozen:subset:item", "a subset entry could be assigned")
        except Exception:
            pass
        if norm(cfg.model_dump()) != before:
            res.fail("frozen:changed", "assignment attempts changed the configuration")
        for name, obj, attrs in tries[1:]:
            for a in attrs:
                if obj[a] != getattr(obj, a):
                    res.fail(f"item:{name}.{a}", "item and attribute access differ")
