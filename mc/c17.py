"""C17: subsetting, resampling and clustering of time series.

subset:  every pair of bounds from an alphabet of dates of every precision (inside, at the edges of and outside the series), on series of
         several lengths, starts and steps; subsets of other dimensions.
resample: every series length, start, hole pattern and rule, subset first or not; rows of the table in any order.
cluster: every assignment of days to representative days, given per day or on the first step of a day, as texts or dates, with a subset
         or resampling first.
reload:  every combination of settings, saved and read back (once and twice), and tightened on reading.
All against plain arithmetic on lists of (time, value) below.
"""
from __future__ import annotations

import datetime as dt
import itertools
import math
import os
import pathlib
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc import c14, fast, tiny

fast.memo_grammars()

PROPERTY, LEVEL = "C17", "exploration"
RULE = "subset: some but not all steps are kept; resample: at least one output step joins several input steps; cluster: at least two days share a representative; reload: any setting is active"
ASSUMPTIONS = ["bins of resampling are those of pandas (fixed lengths count from midnight of the first day, weeks and months are calendar periods labelled by their last day, `MS` by its first)",
               "missing values are left out of sums, means and first values; a step without any input step does not exist",
               "a series of a single step stands for one hour, as documented"]
BOUNDS = {
    "quick": "subset: 10 series x 162 bound pairs; resample: lengths 1 to 9 and 26, 50 x 4 starts x 15 rules x 2 hole patterns; cluster: all assignments of up to 3 days (and 60 of 4 days) x 4 forms; reload: 36 setting combinations",
    "thorough": "subset: 10 series x 324 bound pairs; resample: lengths 1 to 16 and more x 8 starts x all hole patterns; cluster: all assignments of up to 4 days x 8 forms x windows; reload: 96 combinations",
}
CASE_TIMEOUT = 200
MATH = str(pathlib.Path(__file__).parent / "data" / "time.yaml")
H = dt.timedelta(hours=1)
NAN = float("nan")


def stamps(start, n, step=1.0):
    t0 = dt.datetime.fromisoformat(start)
    return [t0 + i * step * H for i in range(n)]


def values(ts, holes):
    """{input: [values]}; holes: which values are missing."""
    n = len(ts)
    miss = [holes == 1 and i % 2 == 1 or holes == 2 and i % 3 == 0 or holes == 3 and i < n // 2 for i in range(n)]
    num = [float((i * 7) % 11 + 1) for i in range(n)]
    return {
        "q_all": [float(i % 5 + 1) for i in range(n)],
        "q_sum": [NAN if m else v for v, m in zip(num, miss)],
        "q_mean": [NAN if m else v * 0.5 for v, m in zip(num, miss)],
        "q_first": [NAN if m else v + 100 for v, m in zip(num, miss)],
        "l_text": [None if m else f"w{i % 4}" for i, m in enumerate(miss)],
    }


def frames(ts, vals, order=None):
    idx = pd.Index([t.isoformat(sep=" ") for t in ts], name="timesteps")
    out = {}
    for name, v in vals.items():
        df = pd.DataFrame({(name, "s"): v}, index=idx)
        df.columns.names = ["inputs", "techs"]
        out[name] = df.iloc[order] if order is not None else df
    return out


def load(dfs, init=None, defs=None, rows=None):
    import calliope

    d = tiny.definition(MATH)
    d["nodes"] = {"a": {"techs": {"s": None, "t": None}}, "b": {"techs": {"s": None}}}
    d["data_definitions"] = dict(defs or {})
    d["data_tables"] = {k: {"table": k, "rows": [df.index.names[0]] if not isinstance(df.index, pd.MultiIndex) else list(df.index.names),
                            "columns": list(df.columns.names)} for k, df in dfs.items()}
    d["config"]["init"].update(init or {})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(d, data_table_dfs=dfs)


# --- reference ------------------------------------------------------------------------------------

def period(text):
    """[start, end) of an ISO date of any precision."""
    n = len(text)
    if n == 4:
        return dt.datetime(int(text), 1, 1), dt.datetime(int(text) + 1, 1, 1)
    if n == 7:
        y, m = int(text[:4]), int(text[5:])
        return dt.datetime(y, m, 1), dt.datetime(y + m // 12, m % 12 + 1, 1)
    full = dt.datetime.fromisoformat((text + "2005-01-01 00:00:00"[n:]))
    step = {10: dt.timedelta(days=1), 13: H, 16: dt.timedelta(minutes=1), 19: dt.timedelta(seconds=1)}[n]
    return full, full + step


def duration(ts):
    if len(ts) == 1:
        return [1.0]
    d = [(b - a) / H for a, b in zip(ts, ts[1:])]
    return d + d[-1:]


def bin_of(t, rule, first):
    """(sort key, label) of the bin of a time."""
    origin = dt.datetime(first.year, first.month, first.day)
    fixed = {"90min": 1.5, "30min": 0.5, "1D": 24, "2D": 48}
    if rule.endswith("h") or rule in fixed:
        w = fixed.get(rule) or float(rule[:-1])
        return origin + math.floor((t - origin) / (w * H)) * w * H
    if rule == "1W":
        day = dt.datetime(t.year, t.month, t.day)
        return day + dt.timedelta(days=6 - day.weekday())
    if rule == "1MS":
        return dt.datetime(t.year, t.month, 1)
    if rule == "1ME":
        return period(f"{t.year}-{t.month:02d}")[1] - dt.timedelta(days=1)
    raise ValueError(rule)


def resample(ts, vals, dur, rule):
    bins = {}
    for i, t in enumerate(ts):
        bins.setdefault(bin_of(t, rule, ts[0]), []).append(i)
    labels = sorted(bins)
    out = {}
    for name, v in vals.items():
        res = []
        for lab in labels:
            have = [v[i] for i in bins[lab] if v[i] is not None and v[i] == v[i]]
            if not have:
                res.append(None)
            elif name in ("q_sum", "q_all"):
                res.append(sum(have))
            elif name == "q_mean":
                res.append(sum(have) / len(have))
            else:
                res.append(have[0])
        out[name] = res
    return labels, out, [sum(dur[i] for i in bins[lab]) for lab in labels], max(len(b) for b in bins.values())


def times(da):
    return [pd.Timestamp(t).to_pydatetime() for t in da.values]


def compare(m, ts, vals, dur, weights=None):
    ds = m.inputs
    got = times(ds.timesteps)
    if got != ts:
        return f"steps {[str(t) for t in got[:8]]}... instead of {[str(t) for t in ts[:8]]}..." if len(ts) > 8 else f"steps {[str(t) for t in got]} instead of {[str(t) for t in ts]}"
    if not np.allclose(ds.timestep_resolution.values.astype(float), dur, rtol=1e-9):
        return f"step durations {ds.timestep_resolution.values.tolist()} instead of {dur}"
    w = weights or [1.0] * len(ts)
    if not np.allclose(ds.timestep_weights.values.astype(float), w):
        return f"step weights {ds.timestep_weights.values.tolist()} instead of {w}"
    for name, v in vals.items():
        if all(x is None or x != x for x in v):
            if name in ds and ds[name].notnull().any():
                return f"{name} has values"
            continue
        if name not in ds:
            return f"{name} is missing"
        da = ds[name].sel(techs="s") if "techs" in ds[name].dims else ds[name]
        if "nodes" in da.dims:
            return f"{name} got the dimension nodes"
        for t, x, y in zip(ts, v, da.values.tolist()):
            xm, ym = x is None or x != x, y is None or y != y
            if xm != ym or not xm and (x != y if isinstance(x, str) else not math.isclose(x, y, rel_tol=1e-9)):
                return f"{name} at {t}: {y} instead of {x}"
    return None


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001
        return None, e


# --- subset ---------------------------------------------------------------------------------------

SERIES = [("2005-01-01 00:00", 1, 1), ("2005-01-01 00:00", 4, 1), ("2005-01-01 22:00", 5, 1), ("2005-01-31 12:00", 30, 1), ("2005-12-31 00:00", 9, 6), ("2005-01-01 00:30", 6, 0.5),
          ("2005-02-27 00:00", 6, 24), ("2004-02-28 00:00", 9, 12), ("2005-01-01 23:59", 4, 0.25), ("2005-01-30 00:00", 4, 24)]
BOUNDS_AT = ["2004", "2005", "2005-01", "2005-02", "2005-12", "2005-01-01", "2005-01-02", "2005-01-31", "2005-02-01", "2005-12-31", "2006-01-01", "2005-01-01 01", "2005-01-01 22:00", "2005-01-01 23:30",
             "2005-01-02 00:00:00", "2005-02-28 00:00", "2004-02-29", "2004-03-01 12:00"]


def subset_cases(tier):
    for s in range(len(SERIES)):
        for a in BOUNDS_AT if tier == "thorough" else BOUNDS_AT[s % 2::2]:
            yield ("subset", s, a, tuple(BOUNDS_AT))
    for i in range(len(OTHER)):
        yield ("other", i)


def subset_case(case, res):
    _, s, a, ends = case
    start, n, step = SERIES[s]
    ts = stamps(start, n, step)
    vals = values(ts, 0)
    dur = duration(ts)
    dfs = frames(ts, vals)
    for b in ends:
        (lo, _), (_, hi) = period(a), period(b)
        keep = [i for i, t in enumerate(ts) if lo <= t < hi]
        key = f"{SERIES[s]}:{a}:{b}"
        m, err = attempt(lambda: load(dfs, {"subset": {"timesteps": [a, b]}}))
        res.evaluations += 1
        if not keep:
            if m is not None:
                res.fail(f"empty:{key}", f"no step lies in the subset, the model has {m.inputs.timesteps.size} steps")
            elif type(err).__name__ != "ModelError":
                res.fail(f"error:{key}", f"{type(err).__name__}: {err}")
            res.outcome(("none",))
            continue
        if m is None:
            res.fail(f"refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
            continue
        if len(keep) < n:
            res.nontrivial += 1
        res.outcome((len(keep), n))
        if msg := compare(m, [ts[i] for i in keep], {k: [v[i] for i in keep] for k, v in vals.items()}, [dur[i] for i in keep]):
            res.fail(f"subset:{key}", msg)


# subsets of other dimensions: (subset, expected labels of each dimension)
OTHER = [
    ({"k": [2, 3]}, {"k": [2, 3]}), ({"k": [1, 4]}, {"k": [1, 2, 3, 4]}), ({"k": [0, 2]}, {"k": [1, 2]}), ({"d": ["x", "z"]}, {"d": ["x", "z"]}), ({"d": ["y"]}, {"d": ["y"]}),
    ({"d": ["z", "x"]}, {"d": ["z", "x"]}), ({"nodes": ["b"]}, {"nodes": ["b"]}), ({"nodes": ["a", "b"], "d": ["x"], "k": [1, 1]}, {"nodes": ["a", "b"], "d": ["x"], "k": [1]}),
    ({"absent": ["x"]}, {}), ({"otherdays": ["2005-03-01", "2005-03-02"]}, {"otherdays": ["2005-03-01", "2005-03-02"]}),
    ({"otherdays": ["2005-03-02", "2005-03"], "timesteps": ["2005-01-01 01:00", "2005-01-01"]}, {"otherdays": ["2005-03-02", "2005-03-03"], "timesteps": ["2005-01-01 01:00", "2005-01-01 02:00"]}),
    ({"timesteps": None, "d": None}, {"timesteps": ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-01 02:00"]}),
]
BAD_SUBSETS = [{"timesteps": ["2005-01-01"]}, {"timesteps": ["2005-01-01", "2005-01-01", "2005-01-01"]}, {"timesteps": ["01/01/2005", "02/01/2005"]}, {"d": ["nosuch"]}, {"nodes": ["nosuch"]}]


def other_defs():
    return {
        "pk": {"data": [1, 2, 3, 4], "index": [[1], [2], [3], [4]], "dims": ["k"]},
        "pd": {"data": [1, 2, 3], "index": [["x"], ["y"], ["z"]], "dims": ["d"]},
        "q_other": {"data": [1, 2, 3], "index": [["2005-03-01"], ["2005-03-02"], ["2005-03-03"]], "dims": ["otherdays"]},
    }


def other_case(case, res):
    sub, want = OTHER[case[1]]
    ts = stamps("2005-01-01", 3)
    dfs = frames(ts, values(ts, 0))
    m, err = attempt(lambda: load(dfs, {"subset": sub}, other_defs()))
    res.evaluations += 1
    res.nontrivial += 1
    if m is None:
        return res.fail(f"other:{case[1]}", f"{sub}: {type(err).__name__}: {err}")
    full = {"k": [1, 2, 3, 4], "d": ["x", "y", "z"], "nodes": ["a", "b"], "otherdays": ["2005-03-01", "2005-03-02", "2005-03-03"], "timesteps": [str(t) for t in ts]} | want
    par = {"pk": ("k", {1: 1, 2: 2, 3: 3, 4: 4}), "pd": ("d", dict(x=1, y=2, z=3)), "q_other": ("otherdays", {dt.datetime(2005, 3, i): i for i in (1, 2, 3)})}
    for dim, labels in full.items():
        got = m.inputs[dim].values.tolist() if m.inputs[dim].dtype.kind != "M" else times(m.inputs[dim])
        if m.inputs[dim].dtype.kind == "M":
            labels = [dt.datetime.fromisoformat(x) for x in labels]
        if got != labels:
            res.fail(f"other:{case[1]}:{dim}", f"{sub}: {dim} is {got} instead of {labels}")
    for name, (dim, v) in par.items():
        lab = times(m.inputs[dim]) if m.inputs[dim].dtype.kind == "M" else m.inputs[dim].values.tolist()
        if m.inputs[name].values.tolist() != [v[x] for x in lab]:
            res.fail(f"other:{case[1]}:{name}", f"{sub}: {name} is {m.inputs[name].values.tolist()} at {lab}")
    if case[1] == 0:
        for bad in BAD_SUBSETS:
            m, err = attempt(lambda: load(dfs, {"subset": bad}, other_defs()))
            res.evaluations += 1
            if m is not None:
                res.fail(f"bad:{bad}", "accepted")
    res.outcome(("other", case[1]))


# --- resample -------------------------------------------------------------------------------------

RULES = ["1h", "2h", "3h", "4h", "5h", "6h", "7h", "90min", "30min", "1D", "2D", "1W", "1ME", "1MS", "36h"]
STARTS = ["2005-01-01 00:00", "2005-01-01 01:00", "2005-01-30 05:00", "2004-02-28 23:00"]
MORE_STARTS = ["2005-01-02 23:00", "2005-01-03 00:30", "2005-12-31 13:00", "2005-02-26 11:00"]


def resample_cases(tier):
    lengths = [*range(1, 17), 24, 25, 26, 49, 50, 75] if tier == "thorough" else [*range(1, 10), 26, 50]
    for n in lengths:
        for start in STARTS + (MORE_STARTS if tier == "thorough" else []):
            for holes in range(4) if tier == "thorough" else (0, 1 + n % 3):
                yield ("resample", start, n, 1, holes, None)
    for start, n, step in (("2005-01-01 00:00", 8, 3), ("2005-01-30 00:00", 12, 24), ("2005-01-01 02:00", 7, 0.5), ("2005-01-01 00:00", 10, 0.25)):
        for holes in (0, 1, 2):
            yield ("resample", start, n, step, holes, None)
    for a, b in (("2005-01-01 03:00", "2005-01-01"), ("2005-01-02", "2005-01-02"), ("2005-01-01 05", "2005-01-02 07"), ("2005-01-01 07:00", "2005-01-01 07:00")):
        yield ("resample", "2005-01-01 01:00", 40, 1, 1, (a, b))
    orders = [p for p in itertools.permutations(range(4))] if tier == "thorough" else [(0, 1, 3, 2), (3, 2, 1, 0), (1, 0, 2, 3), (2, 0, 3, 1), (1, 2, 3, 0), (3, 0, 1, 2)]
    for o in orders:
        yield ("order", o)
    widths = (0.5, 1, 3, 24) if tier == "thorough" else (0.5, 1, 3)
    for k in range(1, 4):
        for g in itertools.product(widths, repeat=k):
            if len(set(g)) > 1:
                yield ("steps", g)
    for gap in range(1, 4):
        yield ("gap", gap)


def steps_case(case, res):
    """Steps of unequal length: each lasts until the next one, the last as long as the one before."""
    ts = [dt.datetime(2005, 1, 1)]
    for w in case[1]:
        ts.append(ts[-1] + w * H)
    dur, vals = duration(ts), values(ts, 0)
    dfs = frames(ts, vals)
    for lo, hi in ((0, len(ts)), (0, len(ts) - 1), (1, len(ts))):
        sub = {"subset": {"timesteps": [str(ts[lo]), str(ts[hi - 1])]}} if (lo, hi) != (0, len(ts)) else {}
        key = f"{case[1]}:{lo}:{hi}"
        m, err = attempt(lambda: load(dfs, sub))
        res.evaluations += 1
        res.nontrivial += 1
        if m is None:
            res.fail(f"steps-refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
            continue
        if msg := compare(m, ts[lo:hi], {k: v[lo:hi] for k, v in vals.items()}, dur[lo:hi]):
            res.fail(f"steps:{key}", f"steps of {case[1]} hours, {lo} to {hi}: {msg}")
        res.outcome(("steps", tuple(dur[lo:hi])))


def resample_case(case, res):
    _, start, n, step, holes, sub = case
    ts = stamps(start, n, step)
    vals = values(ts, holes)
    dur = duration(ts)
    dfs = frames(ts, vals)
    if sub:
        keep = [i for i, t in enumerate(ts) if period(sub[0])[0] <= t < period(sub[1])[1]]
        ts, dur, vals = [ts[i] for i in keep], [dur[i] for i in keep], {k: [v[i] for i in keep] for k, v in vals.items()}
    for rule in RULES:
        key = f"{start}:{n}:{step}:{holes}:{sub}:{rule}"
        init = {"resample": {"timesteps": rule}} | ({"subset": {"timesteps": list(sub)}} if sub else {})
        m, err = attempt(lambda: load(dfs, init))
        res.evaluations += 1
        if m is None:
            res.fail(f"refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
            continue
        ts1, vals1, dur1, joined = resample(ts, vals, dur, rule)
        if joined > 1:
            res.nontrivial += 1
        res.outcome((len(ts1), rule))
        if msg := compare(m, ts1, vals1, dur1):
            res.fail(f"resample:{key}", msg)
        if not math.isclose(float(m.inputs.timestep_resolution.sum()), sum(dur)):
            res.fail(f"period:{key}", f"the steps last {float(m.inputs.timestep_resolution.sum())} hours, the period {sum(dur)}")
    res.sample = {"start": start, "steps": n, "rules": RULES}


def order_case(case, res):
    o = list(case[1])
    ts = stamps("2005-01-01 22:00", 4)
    vals = values(ts, 1)
    dur = duration(ts)
    for mixed in (False, True):
        dfs = frames(ts, vals)
        for i, k in enumerate(dfs):
            if not mixed or i % 2:
                dfs[k] = dfs[k].iloc[o]
        for rule in (None, "2h", "1D"):
            for sub in (None, ("2005-01-01 23:00", "2005-01-02")):
                keep = [i for i, t in enumerate(ts) if not sub or period(sub[0])[0] <= t < period(sub[1])[1]]
                ts0, dur0, vals0 = [ts[i] for i in keep], [dur[i] for i in keep], {k: [v[i] for i in keep] for k, v in vals.items()}
                if rule:
                    ts0, vals0, dur0, _ = resample(ts0, vals0, dur0, rule)
                m, err = attempt(lambda: load(dfs, {"resample": {"timesteps": rule}, "subset": {"timesteps": list(sub) if sub else None}}))
                res.evaluations += 1
                res.nontrivial += 1
                key = f"{o}:{mixed}:{rule}:{sub}"
                if m is None:
                    res.fail(f"refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
                elif msg := compare(m, ts0, vals0, dur0):
                    res.fail(f"order:{key}", f"rows of the tables in the order {o}: {msg}")


def gap_case(case, res):
    """Series with missing steps: the steps around a gap keep their values and the total is kept."""
    gap = case[1]
    ts = stamps("2005-01-01", 6) + stamps(f"2005-01-0{1 + gap} 03:00", 5)
    vals = values(ts, 0)
    dur = duration(ts)
    for rule in (None, "2h", "6h", "1D", "1W"):
        m, err = attempt(lambda: load(frames(ts, vals), {"resample": {"timesteps": rule}}))
        res.evaluations += 1
        ts0, vals0, dur0 = ts, vals, dur
        if rule:
            ts0, vals0, dur0, _ = resample(ts, vals, dur, rule)
        if m is None:
            res.fail(f"refused:gap:{gap}:{rule}", f"{type(err).__name__}: {str(err)[:200]}")
        elif msg := compare(m, ts0, vals0, dur0):
            res.fail(f"gap:{gap}:{rule}", msg)


# --- cluster --------------------------------------------------------------------------------------

def cluster_cases(tier):
    forms = ["date_text", "step_text", "date_dt", "step_dt"]
    for days in (1, 2, 3, 4):
        for k, assign in enumerate(itertools.product(range(days), repeat=days)):
            if days == 4 and tier != "thorough" and k % 4:
                continue
            for form in forms if days < 4 or tier == "thorough" else [forms[k // 4 % 4]]:
                yield ("cluster", days, assign, form, None, None)
    for assign in itertools.product(range(3), repeat=3):
        for rule in ("12h", "1D") if tier == "thorough" else ("12h",):
            yield ("cluster", 3, assign, forms[sum(assign) % 4], rule, None)
        for win in ((0, 1), (1, 2), (1, 1), (0, 2)):
            yield ("cluster", 3, assign, forms[(sum(assign) + win[0]) % 4], None, win)
    for i in range(3):
        yield ("clusterbad", i)


def day(i):
    return dt.datetime(2005, 1, 30) + dt.timedelta(days=i)


def cluster_data(days, assign, form, step=6):
    ts = stamps(day(0).isoformat(), int(days * 24 / step), step)
    vals = values(ts, 0)
    dfs = frames(ts, vals)
    name = "days_date" if form.endswith("dt") else "days"
    to = [day(a) if form.endswith("dt") else day(a).date().isoformat() for a in assign]
    if form.startswith("date"):
        df = pd.DataFrame({name: to}, index=pd.Index([day(i).date().isoformat() for i in range(days)], name="datesteps"))
    else:
        df = pd.DataFrame({name: to}, index=pd.Index([day(i).isoformat(sep=" ") for i in range(days)], name="timesteps"))
    df.columns.name = "inputs"
    dfs["clusters"] = df
    return ts, vals, dfs, name


def cluster_check(m, ts, vals, dur, days, assign):
    """ts etc. after subsetting and resampling; days: list of day numbers; assign: {day: representative}."""
    reps = sorted(set(assign.values()))
    cl = {r: i for i, r in enumerate(reps)}
    num = [(t - day(0)).days for t in ts]
    keep = [i for i in range(len(ts)) if num[i] in cl]
    weights = [float(sum(1 for d in days if assign[d] == num[i])) for i in keep]
    vals1 = {k: [v[i] for i in keep] for k, v in vals.items()}
    ts1, dur1 = [ts[i] for i in keep], [dur[i] for i in keep]
    if msg := compare(m, ts1, vals1, dur1, weights):
        return msg
    ds = m.inputs
    total = sum(dur)
    got = float((ds.timestep_resolution * ds.timestep_weights).sum())
    if not math.isclose(got, total):
        return f"weighted durations add up to {got} hours, the period has {total}"
    if times(ds.datesteps) != [day(d) for d in days]:
        return f"days {ds.datesteps.values.tolist()}"
    if [int(x) for x in ds.clusters.values] != list(range(len(reps))):
        return f"clusters {ds.clusters.values.tolist()}"
    if [int(x) for x in ds.lookup_datestep_cluster.values] != [cl[assign[d]] for d in days]:
        return f"days belong to clusters {ds.lookup_datestep_cluster.values.tolist()} instead of {[cl[assign[d]] for d in days]}"
    if [int(x) for x in ds.timestep_cluster.values] != [cl[num[i]] for i in keep]:
        return f"steps belong to clusters {ds.timestep_cluster.values.tolist()}"
    last = {r: max(t for t in ts1 if (t - day(0)).days == r) for r in reps}
    first = {r: min(t for t in ts1 if (t - day(0)).days == r) for r in reps}
    if times(ds.lookup_datestep_last_cluster_timestep) != [last[assign[d]] for d in days]:
        return f"last steps of the days' clusters {ds.lookup_datestep_last_cluster_timestep.values.tolist()}"
    if ds.cluster_first_timestep.values.tolist() != [t == first[(t - day(0)).days] for t in ts1]:
        return f"first steps {ds.cluster_first_timestep.values.tolist()}"
    want = [last[(t - day(0)).days] if t == first[(t - day(0)).days] else None for t in ts1]
    got = [None if pd.isnull(x) else pd.Timestamp(x).to_pydatetime() for x in ds.lookup_cluster_last_timestep.values]
    if got != want:
        return f"last step looked up from the first step of a day: {got} instead of {want}"
    return None


def cluster_case(case, res):
    _, days, assign, form, rule, win = case
    key = ":".join(map(str, case[1:]))
    ts, vals, dfs, name = cluster_data(days, assign, form)
    dur = duration(ts)
    init = {"time_cluster": name}
    kept = list(range(days))
    if win:
        kept = list(range(win[0], win[1] + 1))
        init["subset"] = {"timesteps": [day(win[0]).date().isoformat(), day(win[1]).date().isoformat()]}
        if form.startswith("date"):
            init["subset"]["datesteps"] = init["subset"]["timesteps"]
        idx = [i for i, t in enumerate(ts) if (t - day(0)).days in kept]
        ts, dur, vals = [ts[i] for i in idx], [dur[i] for i in idx], {k: [v[i] for i in idx] for k, v in vals.items()}
    if rule:
        init["resample"] = {"timesteps": rule}
        ts, vals, dur, _ = resample(ts, vals, dur, rule)
    amap = {d: assign[d] for d in kept}
    m, err = attempt(lambda: load(dfs, init))
    res.evaluations += 1
    if len(set(amap.values())) < len(kept):
        res.nontrivial += 1
    if not set(amap.values()) <= set(kept):
        # a representative day is outside the kept period
        res.outcome(("outside",))
        if m is None and type(err).__name__ != "ModelError":
            res.fail(f"error:{key}", f"{type(err).__name__}: {err}")
        if m is not None:
            res.fail(f"outside:{key}", f"days {kept} are kept, their representative days are {sorted(set(amap.values()))}: the model has {m.inputs.timesteps.size} steps and was not refused")
        return
    if m is None:
        return res.fail(f"refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
    res.outcome((len(set(amap.values())), len(kept), form))
    if msg := cluster_check(m, ts, vals, dur, kept, amap):
        res.fail(f"cluster:{key}", msg)


def clusterbad_case(case, res):
    ts, vals, dfs, name = cluster_data(2, (0, 0), "date_text")
    i = case[1]
    if i == 0:
        dfs["clusters"].iloc[1, 0] = "2005-06-01"  # not in the series
    elif i == 1:
        dfs["clusters"].iloc[1, 0] = "someday"
    init = {"time_cluster": "nosuch" if i == 2 else name}
    m, err = attempt(lambda: load(dfs, init))
    res.evaluations += 1
    if m is not None:
        res.fail(f"clusterbad:{i}", f"accepted, with {m.inputs.timesteps.size} steps")


# --- reload ---------------------------------------------------------------------------------------

SUBS = [None, ("2005-01-30 06:00", "2005-01-31"), ("2005-01-30", "2005-01-30")]
RULESR = [None, "12h", "1D", "1W"]


def reload_cases(tier):
    for sub in range(3):
        for rule in range(4):
            for cl in (None, (0, 0, 2), (1, 1, 1)):
                if cl and (sub or rule > 2):
                    if not (sub == 2 and cl == (0, 0, 2)):
                        continue
                yield ("reload", sub, rule, cl, 0)
                if tier == "thorough":
                    yield ("reload", sub, rule, cl, 1)
    for sub in range(3):
        for rule in range(4):
            for sub2 in range(3):
                for rule2 in range(4):
                    if (sub, rule) != (sub2, rule2) and sub in (0, sub2) and (rule == 0 or rule == rule2 or (rule, rule2) in ((1, 2), (1, 3), (2, 3))) and (rule == 0 or sub == sub2):
                        yield ("tighten", sub, rule, sub2, rule2)


def init_of(sub, rule, name=None):
    init = {}
    if SUBS[sub]:
        init["subset"] = {"timesteps": list(SUBS[sub])}
    if RULESR[rule]:
        init["resample"] = {"timesteps": RULESR[rule]}
    if name:
        init["time_cluster"] = name
    return init


def reload_case(case, res):
    import calliope
    from calliope.schemas import CalliopeAttrs

    _, sub, rule, cl, holes = case
    key = ":".join(map(str, case[1:]))
    assign = cl or (0, 1, 2)
    if cl and sub == 2:
        assign = (0, 0, 0)
    ts, vals, dfs, name = cluster_data(3, assign, "step_text" if sub else "date_text")
    if not cl:
        dfs.pop("clusters")
    if holes:
        dfs |= frames(ts, values(ts, 1))
    m, err = attempt(lambda: load(dfs, init_of(sub, rule, name if cl else None)))
    if m is None:
        return res.fail(f"refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
    res.evaluations += 1
    res.nontrivial += bool(sub or rule or cl)
    with tempfile.TemporaryDirectory(prefix="c17_") as tmp:
        cur = m
        for n in range(2):
            p = os.path.join(tmp, f"m{n}.nc")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cur.to_netcdf(p)
                cur, err = attempt(lambda: calliope.read_netcdf(p))
            if cur is None:
                return res.fail(f"reload-refused:{key}", f"read {n + 1}: {type(err).__name__}: {str(err)[:200]}")
            if msg := c14.diff_ds(m.inputs, cur.inputs):
                return res.fail(f"reload:{key}", f"after saving and reading {n + 1} times: {msg}")
            if cur.runtime.subset != m.runtime.subset or cur.runtime.resample != m.runtime.resample or cur.runtime.time_cluster != m.runtime.time_cluster:
                return res.fail(f"reload:{key}", "the record of applied settings changed")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again, err = attempt(lambda: calliope.Model(m.inputs.copy(deep=True), CalliopeAttrs(**m.dump_all_attrs())))
        if again is None:
            return res.fail(f"again-refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
        if msg := c14.diff_ds(m.inputs, again.inputs):
            res.fail(f"again:{key}", f"instantiating from the inputs: {msg}")
    res.outcome(("reload", m.inputs.timesteps.size))


def tighten_case(case, res):
    import calliope

    _, sub, rule, sub2, rule2 = case
    key = ":".join(map(str, case[1:]))
    ts = stamps(day(0).isoformat(), 12, 6)
    dfs = frames(ts, values(ts, 0))
    m, want = load(dfs, init_of(sub, rule)), load(dfs, init_of(sub2, rule2))
    res.evaluations += 1
    res.nontrivial += 1
    with tempfile.TemporaryDirectory(prefix="c17_") as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = os.path.join(tmp, "m.nc")
        m.to_netcdf(p)
        got, err = attempt(lambda: calliope.read_netcdf(p, **init_of(sub2, rule2)))
    if got is None:
        return res.fail(f"tighten-refused:{key}", f"{type(err).__name__}: {str(err)[:200]}")
    if (rule, rule2) in ((1, 2), (1, 3), (2, 3)):  # means of means may differ where steps join different numbers of steps
        got.inputs, want.inputs = got.inputs.drop_vars("q_mean"), want.inputs.drop_vars("q_mean")
    if msg := c14.diff_ds(want.inputs, got.inputs):
        res.fail(f"tighten:{key}", f"read with {init_of(sub2, rule2)} from a file made with {init_of(sub, rule)}: {msg}")


def cases(tier):
    yield from subset_cases(tier)
    yield from resample_cases(tier)
    yield from cluster_cases(tier)
    yield from reload_cases(tier)


def run_case(case, res):
    globals()[case[0] + "_case"](case, res)
