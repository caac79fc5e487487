"""C21: the command line does what the equivalent Python calls do, and generated scripts cover each requested run once.

run:        `calliope run` with every combination of source (YAML or NetCDF file, scenario, override), saved outputs (NetCDF, CSV, LP,
            already existing targets), solver logs, modes, feasible and infeasible models; every file left behind is accounted for.
new:        `calliope new` for every template, on new, nested and existing targets.
scenarios:  `calliope generate_scenarios` for every list of up to three groups of up to three overrides; the file is then used.
runs:       `calliope generate_runs` for every script type, source of scenarios, list of scenarios, override and extra arguments; shell
            scripts are executed (as a whole, one by one, through the cluster script with its task numbers) with a stand-in for
            `calliope` that records its arguments.
"""
from __future__ import annotations

import copy
import itertools
import json
import os
import pathlib
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from mc import fast

fast.memo_grammars()

PROPERTY, LEVEL = "C21", "exploration"
RULE = "run: at least one output, override or scenario is asked for; scenarios/runs: at least two runs; new: all"
ASSUMPTIONS = ["an existing CSV directory or model directory must not be touched; an existing NetCDF or LP file is replaced, as by the Python calls",
               "scenario names and override strings without shell variables, backquotes and line breaks",
               "Windows scripts are read by a small parser instead of being executed"]
BOUNDS = {
    "quick": "run: 5 sources x 3 NetCDF x 3 CSV x 2 LP targets, 3 solvers with logs, 2 x 2 infeasible, 4 mode variants; new: 4 templates x 3 targets; scenarios: all lists of up to 3 groups of up to 3 overrides, 2 prefixes; runs: 4 script types x 5 models x 7 scenario lists x 4 overrides x 2 extra arguments",
    "thorough": "run: also with logs, --debug, --quiet, --profile and with every solver; runs: also 12 scenarios and 3 resource requests",
}
CASE_TIMEOUT = 600

MODEL = """
import: [extra.yaml]
config:
  init: {name: climodel, mode: MODE}
  build: {ensure_feasibility: false, operate: {window: 2h, horizon: 2h}}
  solve: {solver: cbc, spores: {number: 2}}
techs:
  gen: {base_tech: supply, carrier_out: e, flow_cap_max: 9, flow_cap: 9, cost_flow_out: {data: 1, index: monetary, dims: costs}}
  loc: {base_tech: supply, carrier_out: e, flow_cap_max: 9, flow_cap: 9, cost_flow_out: {data: 3, index: monetary, dims: costs}}
  dem: {base_tech: demand, carrier_in: e, flow_cap: 99}
nodes:
  a: {techs: {gen: , loc: , dem: }}
data_tables:
  sinks: {table: sinks.csv, rows: timesteps, columns: techs, add_dims: {nodes: a, inputs: sink_use_equals}}
"""
EXTRA = """
overrides:
  dear: {techs.gen.cost_flow_out.data: 5}
  tight: {techs.gen.flow_cap_max: 4, techs.gen.flow_cap: 4}
  broken: {techs.gen.flow_cap_max: 1, techs.gen.flow_cap: 1, techs.loc.flow_cap_max: 0.5, techs.loc.flow_cap: 0.5}
  more: {techs.loc.flow_cap_max: 8}
SCENARIOS
"""
SINKS = "timesteps,dem\n2005-01-01 00:00,3\n2005-01-01 01:00,5\n2005-01-01 02:00,6\n2005-01-01 03:00,2\n"
OVERRIDE = "{techs.loc.cost_flow_out.data: 2}"
DEFAULT_SCENARIOS = "scenarios:\n  both: [dear, tight]\n  one: [tight]\n  bad: [broken]\n"


def write_model(root, mode="base", scenarios=DEFAULT_SCENARIOS, name="model.yaml"):
    root = pathlib.Path(root)
    (root / name).write_text(MODEL.replace("MODE", mode))
    (root / "extra.yaml").write_text(EXTRA.replace("SCENARIOS", scenarios))
    (root / "sinks.csv").write_text(SINKS)


class inside:
    """A scratch directory as working directory."""

    def __enter__(self):
        self.old = os.getcwd()
        self.tmp = tempfile.mkdtemp(prefix="mc-c21-")
        os.chdir(self.tmp)
        return pathlib.Path(self.tmp)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.tmp, ignore_errors=True)


def invoke(command, args):
    import click.testing

    from calliope import cli

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = click.testing.CliRunner().invoke(getattr(cli, command), [str(a) for a in args])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    return r


def files(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(pathlib.Path(root).rglob("*")) if p.is_file()}


# --- run -------------------------------------------------------------------------------------------

SOURCES = {  # name: (file, options, Python arguments)
    "plain": ("model.yaml", [], {}),
    "scenario": ("model.yaml", ["--scenario=both"], {"scenario": "both"}),
    "overrides": ("model.yaml", ["--scenario=tight,more", f"--override_dict={OVERRIDE}"], {"scenario": "tight,more", "override_dict": {"techs.loc.cost_flow_out.data": 2}}),
    "netcdf": ("model.nc", [], {}),
    "format": ("model.nc", ["--model_format=netcdf"], {}),
}
REFUSED = {"netcdf scenario": ("model.nc", ["--scenario=both"]), "netcdf override": ("model.nc", [f"--override_dict={OVERRIDE}"]), "unknown scenario": ("model.yaml", ["--scenario=nothing"]),
           "unknown file": ("none.yaml", []), "unknown format": ("model.txt", []), "bad format": ("model.yaml", ["--model_format=xml"])}
_memo = {}


def reference(mode, source, kwargs=(), lp=False):
    """(inputs, results, attributes, lp text, netcdf-ready model) of the Python calls."""
    import calliope

    key = (mode, source, tuple(kwargs), lp)
    if key in _memo:
        return _memo[key]
    with inside() as root, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        write_model(root, mode)
        d = SOURCES.get(source, (None, None, {"scenario": source}))[2]
        d = dict(d)
        if "override_dict" in d:
            d["override_dict"] = calliope.AttrDict(copy.deepcopy(d["override_dict"]))
            for k in list(d["override_dict"]):
                v = d["override_dict"].pop(k)
                d["override_dict"].set_key(k, v)
        m = calliope.read_yaml("model.yaml", **d)
        m.build()
        if lp:
            m.backend.to_lp("x.lp")
            out = pathlib.Path("x.lp").read_text()
        else:
            m.solve(**dict(kwargs))
            m.to_csv("csv")
            m.to_netcdf("out.nc")
            out = {"csv": files("csv"), "nc": content("out.nc"), "condition": m.runtime.termination_condition}
        _memo[key] = out
        return out


def content(path):
    """Inputs, results and attributes stored in a NetCDF file."""
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_netcdf(path)
    attrs = m.dump_all_attrs()
    attrs.get("runtime", {}).pop("timings", None)
    attrs["runtime"].pop("timestamps", None)
    return {"inputs": plain(m.inputs), "results": plain(m.results), "config": repr(attrs["config"]), "definition": repr(attrs.get("definition")), "runtime": {k: attrs["runtime"][k] for k in ("termination_condition", "scenario", "applied_overrides") if k in attrs["runtime"]}}


def plain(ds):
    return {str(n): ([str(x) for x in da.dims], str(da.dtype), np.asarray(da.values).astype(str).tolist()) for n, da in ds.data_vars.items()} | {
        f"dim {n}": np.asarray(c.values).astype(str).tolist() for n, c in ds.coords.items()}


def same_csv(a, b):
    """Differences of two directories of CSV files, timings aside."""
    out = [f"{n} only in one" for n in sorted(set(a) ^ set(b))]
    out += [n for n in sorted(set(a) & set(b)) if a[n] != b[n] and not n.endswith("attrs.yaml")]
    return out


def make_nc(mode):
    """The unsolved model as a NetCDF file (bytes)."""
    import calliope

    if ("nc", mode) not in _memo:
        with inside() as root, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            write_model(root, mode)
            calliope.read_yaml("model.yaml").to_netcdf("model.nc")
            _memo["nc", mode] = pathlib.Path("model.nc").read_bytes()
    return _memo["nc", mode]


def run_run(source, nc, csv, lp, extra, mode, res):
    """One `calliope run`; nc/csv: "", "new", "deep" (in a new directory) or "old" (exists already)."""
    file, options = SOURCES[source][:2] if source in SOURCES else (("model.yaml", [f"--scenario={source}"]) if source not in REFUSED else REFUSED[source])
    key = f"run:{source}:{nc or '-'}:{csv or '-'}:{lp or '-'}:{'+'.join(extra)}:{mode}"
    res.evaluations += 1
    if nc or csv or lp or options or extra:
        res.nontrivial += 1
    with inside() as root:
        write_model(root, mode)
        if file == "model.nc":
            (root / "model.nc").write_bytes(make_nc(mode))
        if file == "model.txt":
            (root / "model.txt").write_text("techs: {}")
        args = [file, *options, *extra]
        targets = {}
        if nc:
            targets["nc"] = "old.nc" if nc == "old" else "res.nc"
            args.append(f"--save_netcdf={targets['nc']}")
            if nc == "old":
                (root / "old.nc").write_bytes(b"something else")
        if csv:
            targets["csv"] = {"old": "oldcsv", "new": "csv", "deep": "deep/er/csv"}[csv]
            args.append(f"--save_csv={targets['csv']}")
            if csv == "old":
                (root / "oldcsv").mkdir()
                (root / "oldcsv" / "inputs_flow_cap_max.csv").write_text("keep me")
        if lp:
            targets["lp"] = "model.lp"
            args.append("--save_lp=model.lp")
        logs = next((x.split("=")[1] for x in extra if x.startswith("--save_logs=")), None)
        before = files(root)
        r = invoke("run", args)
        after = files(root)
        new = {k for k in after if k not in before}
        changed = {k for k in before if after.get(k) != before[k]}
        res.outcome((r.exit_code, sorted(new)[:30]))
        text = f"`calliope run {' '.join(args)}` (mode {mode})"
        if source in REFUSED:
            if r.exit_code == 0 or new or changed:
                res.fail(key, f"{text}: expected an error and no files, got exit code {r.exit_code} and {sorted(new | changed)}")
            return
        if lp:
            if r.exit_code != 0 or new != {"model.lp"} or changed:
                res.fail(key, f"{text}: exit code {r.exit_code}, new files {sorted(new)}, changed {sorted(changed)}; expected only model.lp: {r.output[-200:]}")
            elif after["model.lp"].decode() != reference(mode, "plain" if "nc" in file else source, lp=True):
                res.fail(key, f"{text}: the LP file differs from that of the Python calls")
            return
        kwargs = {}
        for x in extra:
            if x.startswith("--override_dict={config.solve.solver"):
                kwargs["solver"] = x.split(": ")[1].rstrip("}")
        ref = reference(mode, "plain" if "nc" in file else source, sorted(kwargs.items()))
        feasible = ref["condition"] == "optimal"
        want_exit = 0 if (feasible or "--no_fail_when_infeasible" in extra) and csv != "old" else 1
        if r.exit_code != want_exit:
            res.fail(key + ":exit", f"{text}: exit code {r.exit_code}, expected {want_exit} (termination {ref['condition']}): {r.output[-300:]}")
            return
        allowed = set()
        if csv and csv != "old":
            base = targets["csv"] + "/"
            got = {k[len(base):]: v for k, v in after.items() if k.startswith(base)}
            allowed |= {k for k in after if k.startswith(base)}
            d = same_csv(ref["csv"], got)
            if d:
                res.fail(key + ":csv", f"{text}: CSV files differ from those of the Python calls: {d[:4]}")
        if csv == "old" and {k for k in changed | new if k.startswith("oldcsv")}:
            res.fail(key + ":overwritten", f"{text}: the existing directory was changed: {sorted(changed | new)[:4]}")
        if nc and csv != "old":
            allowed.add(targets["nc"])
            if targets["nc"] not in after or after[targets["nc"]] == b"something else":
                res.fail(key + ":nonc", f"{text}: the NetCDF file was not written")
            else:
                got = content(targets["nc"])
                for part in ("inputs", "results", "runtime"):
                    if got[part] != ref["nc"][part] and not (source in ("netcdf", "format") and part == "runtime" and got[part].get("termination_condition") == ref["nc"][part].get("termination_condition")):
                        bad = [k for k in set(got[part]) | set(ref["nc"][part]) if got[part].get(k) != ref["nc"][part].get(k)]
                        res.fail(key + f":{part}", f"{text}: {part} in the NetCDF file differ from the Python calls: {bad[:4]}")
        if logs:
            mine = {k for k in new if k.startswith(logs + "/")}
            if not mine:
                res.fail(key + ":nologs", f"{text}: no solver logs in {logs}")
            allowed |= mine
        for x in extra:
            if x.startswith("--profile_filename="):
                name = x.split("=")[1]
                if name not in new:
                    res.fail(key + ":noprofile", f"{text}: no profile was written")
                allowed.add(name)
            if "save_per_spore_path" in x:
                per = {k for k in new if re.fullmatch(r"(per/)?spore_\d+\.nc", k)}
                where = "" if nc else "per/"
                want = {f"{where}spore_{i}.nc" for i in range(3)}
                if per != want:
                    res.fail(key + ":spores", f"{text}: files per spore {sorted(per)}, expected {sorted(want)}")
                allowed |= per
        extra_files = (new | changed) - allowed - ({targets["nc"]} if nc else set())
        if extra_files:
            res.fail(key + ":files", f"{text}: unexpected files {sorted(extra_files)[:5]}")
        if nc == "old" and csv == "old" and after["old.nc"] != b"something else":
            res.counts["netcdf written before the refusal"] += 1


# --- new -------------------------------------------------------------------------------------------

def run_new(template, target, res):
    import calliope

    source = pathlib.Path(calliope.__file__).parent / "example_models" / (template or "national_scale")
    res.evaluations += 1
    res.nontrivial += 1
    key = f"new:{template}:{target}"
    with inside() as root:
        path = {"new": "m", "deep": "x/y/m", "old": "old"}[target]
        if target == "old":
            (root / "old").mkdir()
            (root / "old" / "model.yaml").write_text("keep me")
        r = invoke("new", [path, *([f"--template={template}"] if template else [])])
        after = files(root)
        res.outcome((r.exit_code, len(after)))
        if target == "old" or not source.is_dir():
            if r.exit_code == 0 or after != ({"old/model.yaml": b"keep me"} if target == "old" else {}):
                res.fail(key, f"`calliope new {path}` of {template}: exit code {r.exit_code}, files {sorted(after)[:4]}; expected a refusal")
            return
        want = {f"{path}/{k}": v for k, v in files(source).items() if "__pycache__" not in k}
        after = {k: v for k, v in after.items() if "__pycache__" not in k}
        if r.exit_code or after != want:
            res.fail(key, f"`calliope new {path}` of {template}: exit code {r.exit_code}, {len(after)} files instead of {len(want)}")


# --- scenarios -------------------------------------------------------------------------------------

NAMES = ["dear", "tight", "more", "broken"]


def groups_of(n):
    """Lists of up to n groups of up to three overrides, a representative of each size pattern and every single group."""
    singles = [list(c) for k in (1, 2, 3) for c in itertools.permutations(NAMES, k)]
    out = [[g] for g in singles]
    for k in range(2, n + 1):
        for sizes in itertools.product((1, 2, 3), repeat=k):
            out.append([[NAMES[(i + j) % 4] for j in range(s)] for i, s in enumerate(sizes)])
    return out


def run_scenarios(groups, prefix, res):
    import calliope

    key = f"scenarios:{'/'.join(';'.join(g) for g in groups)}:{prefix}"
    combos = list(itertools.product(*groups))
    res.evaluations += 1
    if len(combos) > 1:
        res.nontrivial += 1
    with inside() as root:
        write_model(root)
        r = invoke("generate_scenarios", ["model.yaml", "out.yaml", *[";".join(g) for g in groups], *([f"--scenario_name_prefix={prefix}"] if prefix else [])])
        if r.exit_code:
            res.fail(key, f"generate_scenarios fails: {r.output[-200:]}")
            return
        import ruamel.yaml
        doc = ruamel.yaml.YAML(typ="safe").load((root / "out.yaml").read_text())
        got = doc.get("scenarios", {})
        res.outcome(str(got)[:200])
        if sorted(map(list, got.values())) != sorted(map(list, combos)) or len(got) != len(combos):
            res.fail(key, f"generated scenarios {dict(list(got.items())[:5])}, expected every one of {len(combos)} combinations once")
        if any(not str(n).startswith(prefix or "scenario_") for n in got):
            res.fail(key + ":names", f"scenario names {list(got)[:3]} do not start with the prefix {prefix}")
        if set(files(root)) != {"model.yaml", "extra.yaml", "sinks.csv", "out.yaml"}:
            res.fail(key + ":files", f"unexpected files {sorted(files(root))}")
        if len(groups) == 1 or len(combos) != 4 or prefix:
            return
        # the generated file is usable: every scenario applies its overrides
        (root / "extra.yaml").write_text(EXTRA.replace("SCENARIOS", ""))
        (root / "model.yaml").write_text((root / "model.yaml").read_text().replace("[extra.yaml]", "[extra.yaml, out.yaml]"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n, c in got.items():
                if "broken" in c and len(set(c) & {"tight", "more"}):
                    continue  # these define the same input twice, which is an error
                m = calliope.read_yaml("model.yaml", scenario=n)
                applied = m.runtime.applied_overrides
                if (applied.split(";") if isinstance(applied, str) else list(applied)) != list(dict.fromkeys(c)):
                    res.fail(key + ":applied", f"scenario {n} applies {applied}, expected {c}")


# --- runs ------------------------------------------------------------------------------------------

RUN_MODELS = {  # scenarios defined, (what all runs are)
    "scenarios": (DEFAULT_SCENARIOS, ["both", "one", "bad"]),
    "overrides": ("", ["dear", "tight", "broken", "more"]),
    "single": ("scenarios: {only: [dear]}\n", ["only"]),
    "many": ("scenarios:\n" + "".join(f"  s{i}: [dear]\n" for i in range(11)), [f"s{i}" for i in range(11)]),
}
LISTS = [None, "dear", "dear,tight", "dear;tight", "dear,tight;dear,more;broken", "both;one", ";".join(f"o{i}" for i in range(10)), "dear;dear"]
OVERRIDES = [None, OVERRIDE, "over.yaml", '{"techs": {"loc": {"name": "it is"}}}', "{scenarios: {extra: [dear]}}"]
ADDITIONAL = [None, "--debug --save_csv=csv"]
KINDS = ["bash", "windows", "bsub", "sbatch"]
REQUESTS = [("1G", "100", None), ("2G", "1:30:00", "4"), (None, None, None), ("500", "1500", "2")]
STUB = """#!/bin/sh
python3 - "$@" <<'PY'
import json, sys
open("calls.jsonl", "a").write(json.dumps(sys.argv[1:]) + "\\n")
PY
"""


def wanted_runs(model, lst, override):
    if lst is not None:
        return lst.split(";")
    runs = list(RUN_MODELS[model][1])
    if override and "scenarios:" in override:
        runs = (runs if model != "overrides" else []) + ["extra"]
    return runs


def execute(args, root, env=None):
    e = dict(os.environ, **(env or {}))
    e["PATH"] = f"{root}/bin:" + e["PATH"]
    r = subprocess.run(args, cwd=root, env=e, capture_output=True, text=True, timeout=120)
    calls = root / "calls.jsonl"
    got = [json.loads(x) for x in calls.read_text().splitlines()] if calls.exists() else []
    calls.unlink(missing_ok=True)
    return r, got


def parse_call(argv):
    """Options of a recorded call: (command, model file, scenario, netcdf, override, rest)."""
    out = {"command": argv[0] if argv else None, "file": argv[1] if len(argv) > 1 else None, "rest": []}
    i = 2
    while i < len(argv):
        a = argv[i]
        for opt in ("--scenario", "--save_netcdf", "--override_dict"):
            if a == opt and i + 1 < len(argv):
                out[opt] = argv[i + 1]
                i += 1
                break
            if a.startswith(opt + "="):
                out[opt] = a[len(opt) + 1:]
                break
        else:
            out["rest"].append(a)
        i += 1
    return out


def windows_split(line):
    """Arguments as the Windows C runtime splits them (quotes group, backslash-quote is a quote)."""
    out, cur, quoted, i, some = [], "", False, 0, False
    while i < len(line):
        c = line[i]
        if c == "\\" and line[i + 1:i + 2] == '"':
            cur += '"'
            some = True
            i += 1
        elif c == '"':
            quoted, some = not quoted, True
        elif c == " " and not quoted:
            if some:
                out.append(cur)
            cur, some = "", False
        else:
            cur += c
            some = True
        i += 1
    return out + ([cur] if some else [])


def run_runs(kind, model, lst, override, additional, request, res):
    key = f"runs:{kind}:{model}:{lst}:{override}:{additional}:{request}"
    runs = wanted_runs(model, lst, override)
    res.evaluations += 1
    if len(runs) > 1:
        res.nontrivial += 1
    mem, time, threads = REQUESTS[request]
    with inside() as root:
        write_model(root, scenarios=RUN_MODELS[model][0])
        (root / "over.yaml").write_text("techs: {loc: {name: other}}\n")
        (root / "bin").mkdir()
        (root / "bin" / "calliope").write_text(STUB)
        (root / "bin" / "calliope").chmod(0o755)
        before = set(files(root))
        script = "runs.bat" if kind == "windows" else "runs.sh"
        args = ["model.yaml", script, f"--kind={kind}"]
        args += [f"--scenarios={lst}"] if lst is not None else []
        args += [f"--override_dict={override}"] if override else []
        args += [f"--additional_args={additional}"] if additional else []
        if kind in ("bsub", "sbatch"):
            args += ([f"--cluster_mem={mem}"] if mem else []) + ([f"--cluster_time={time}"] if time else []) + ([f"--cluster_threads={threads}"] if threads else [])
        r = invoke("generate_runs", args)
        text = f"`calliope generate_runs {shlex.join(args)}`"
        if r.exit_code:
            res.fail(key + ":fails", f"{text} fails: {r.output[-200:]}")
            return
        new = set(files(root)) - before
        array = script + ".array.sh"
        if new != ({script, array} if kind in ("bsub", "sbatch") else {script}):
            res.fail(key + ":files", f"{text}: new files {sorted(new)}")
            return
        err = ""
        if kind == "windows":
            body = (root / script).read_bytes().decode()
            if body.replace("\r\n", "").count("\n"):
                res.fail(key + ":lines", f"{text}: line ends are mixed")
            calls = [windows_split(x)[1:] for x in body.split("\r\n") if x.startswith("calliope ")]
            each = [[c] for c in calls]
        else:
            shell = array if kind in ("bsub", "sbatch") else script
            p, calls = execute([f"./{shell}"], root)
            err = p.stderr
            each = []
            if kind == "bash":
                for i in range(1, len(runs) + 1):
                    p, got = execute([f"./{shell}", str(i)], root)
                    each.append(got)
                    err = err or p.stderr
            else:
                body = (root / script).read_text()
                m = re.search(r"^#BSUB -J calliope\[(\d+)-(\d+)\]" if kind == "bsub" else r"^#SBATCH --array=(\d+)-(\d+)", body, re.M)
                lo, hi = (int(m[1]), int(m[2])) if m else (0, -1)
                var = "LSB_JOBINDEX" if kind == "bsub" else "SLURM_ARRAY_TASK_ID"
                tasks = range(lo, hi + 1) if hi - lo < 4 else [lo, lo + 1, hi]  # the array script itself is run with every number below
                for i in tasks:
                    p, got = execute(["sh", f"./{script}"], root, {var: str(i), "SLURM_SUBMIT_DIR": str(root)})
                    each.append(got)
                    err = err or p.stderr
                if (lo, hi) != (1, len(runs)):
                    res.fail(key + ":tasks", f"{text}: tasks {lo} to {hi} for {len(runs)} runs")
                if len(each) != len(runs):
                    each = [execute([f"./{array}", str(i)], root)[1] for i in range(1, len(runs) + 1)]
                requests(kind, body, mem, time, threads or "1", key, text, res)
        want = [(s, override, shlex.split(additional or "")) for s in runs]
        got = [parse_call(c) for c in calls]
        seen = [(c.get("--scenario"), c.get("--override_dict"), c["rest"]) for c in got]
        res.outcome(seen)
        if seen != want or any(c["command"] != "run" or c["file"] != "model.yaml" for c in got):
            res.fail(key + ":all", f"{text}: the script runs {seen[:4]}, expected {want[:4]}; {err[:150]}")
            return
        paths = [c.get("--save_netcdf") for c in got]
        if len(set(paths)) != len(paths) or None in paths:
            res.fail(key + ":paths", f"{text}: output paths {paths} are not distinct")
        if any(s not in p or not p.endswith(".nc") for s, p in zip(runs, paths)):
            res.fail(key + ":named", f"{text}: output paths {paths} do not name the scenario")
        if [[parse_call(c) for c in e] for e in each] != [[c] for c in got]:
            res.fail(key + ":each", f"{text}: the runs one by one are {each[:3]}, expected {calls[:3]}; {err[:150]}")


def minutes(t):
    """Minutes of a cluster time given as minutes or H:M:S."""
    p = [float(x) for x in t.split(":")]
    return p[0] if len(p) == 1 else p[0] * 60 + p[1] + (p[2] / 60 if len(p) > 2 else 0)


def requests(kind, body, mem, time, threads, key, text, res):
    pats = {"bsub": (r'^#BSUB -R "rusage\[mem=(.*)\]"', r"^#BSUB -W (.*)$", r"^#BSUB -n (.*)$"), "sbatch": (r"^#SBATCH --mem=(\S*)", r"^#SBATCH --time=(\S*)", r"^#SBATCH --ntasks=(\S*)")}[kind]
    got = [m[1] if (m := re.search(p, body, re.M)) else None for p in pats]
    same_time = got[1] is None if time is None else got[1] is not None and re.fullmatch(r"[\d:.]+", got[1]) and minutes(got[1]) == minutes(time)
    if got[0] != mem or got[2] != threads or not same_time:
        res.fail(key + ":resources", f"{text}: the script asks for memory {got[0]}, time {got[1]}, threads {got[2]}; expected {mem}, {time}, {threads}")


# --- cases -----------------------------------------------------------------------------------------

def cases(tier):
    thorough = tier == "thorough"
    out = []
    combos = list(itertools.product(("", "new", "old"), ("", "new", "old"), ("", "lp")))
    combos.append(("new", "deep", ""))
    for source in SOURCES:
        for k in range(0, len(combos), 5):
            out.append(["run", [[source, *c, [], "base"] for c in combos[k:k + 5]]])
    out.append(["run", [[s, "new", "new", "", [], "base"] for s in REFUSED]])
    solvers = ["cbc", "glpk", "gurobi"]
    more = []
    for s in solvers:
        o = [f"--override_dict={{config.solve.solver: {s}}}"]
        more += [["plain", "new", "", "", o + ["--save_logs=logs"], "base"], ["scenario", "new", "new", "", o, "base"], ["plain", "", "", "", ["--save_logs=deep/logs"] + o, "base"]]
    for f in ([], ["--no_fail_when_infeasible"]):
        for nc, csv in [("", ""), ("new", ""), ("new", "new")]:
            more.append(["bad", nc, csv, "", f, "base"])
        more.append(["one", "new", "", "", f, "base"])
    for mode in ("operate", "spores"):
        for nc, csv, lp in [("new", "new", ""), ("", "", "lp"), ("", "new", "")]:
            more.append(["plain", nc, csv, lp, [], mode])
        more.append(["netcdf", "new", "", "", [], mode])
    for nc in ("", "new"):
        more.append(["plain", nc, "", "", ["--override_dict={config.solve.spores.save_per_spore_path: per}"], "spores"])
    flags = [["--quiet"], ["--debug"], ["--profile", "--profile_filename=prof"]]
    more += [["plain", "new", "new", "", f, "base"] for f in flags]
    more += [["plain", "", "", "lp", f, "base"] for f in flags[:2]]
    if thorough:
        more += [[s, nc, csv, lp, f, mode] for s in ("plain", "overrides", "netcdf") for nc, csv, lp in combos for f in flags for mode in ("base", "operate", "spores")]
    for k in range(0, len(more), 4):
        out.append(["run", more[k:k + 4]])
    out.append(["new", [[t, x] for t in (None, "urban_scale", "milp", "nothing") for x in ("new", "deep", "old")]])
    g = groups_of(3)
    todo = [[x, p] for x in g for p in (None, "run_")]
    out += [["scenarios", todo[k:k + 20]] for k in range(0, len(todo), 20)]
    todo = []
    for kind in KINDS:
        for model in RUN_MODELS:
            for lst in LISTS:
                for override in OVERRIDES:
                    for extra in ADDITIONAL:
                        reqs = range(len(REQUESTS)) if kind in ("bsub", "sbatch") and (thorough or (model == "scenarios" and lst is None)) else [0]
                        if not thorough and (extra or model in ("single", "many")) and (lst not in (None, "dear,tight;dear,more;broken") or override not in (None, OVERRIDES[3])):
                            continue
                        if not thorough and model == "overrides" and lst is not None and override is None:
                            continue
                        todo += [[kind, model, lst, override, extra, q] for q in reqs]
    out += [["runs", todo[k:k + 8]] for k in range(0, len(todo), 8)]
    return out


def run_case(case, res):
    f = {"run": run_run, "new": run_new, "scenarios": run_scenarios, "runs": run_runs}[case[0]]
    for args in case[1]:
        f(*args, res)
    res.sample = {"case": [case[0], case[1][0]], "evaluated": res.evaluations}
