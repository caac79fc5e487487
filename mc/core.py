"""Shared runner: enumerate the cases of one property, run them on the code in /repo, report.

A check module provides
  PROPERTY, LEVEL ("model_checking" | "exploration" | "fault_enumeration"), RULE, ASSUMPTIONS
  cases(tier) -> iterable of JSON-able case parameters (the complete bounded space, in order)
  run_case(case, res)  -> fills a Res: counts, samples and violations

Every case is run; nothing is sampled.  Cases are spread over worker processes.
"""
from __future__ import annotations

import collections
import concurrent.futures as cf
import hashlib
import json
import os
import pathlib
import signal
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"
MAX_NEW = 6  # stop after this many distinct new violations


class CaseTimeout(BaseException):
    pass


class Res:
    """What exploring one case covered and found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = 0
        self.counts = collections.Counter()
        self.outcomes = set()
        self.violations = []
        self.sample = None

    def fail(self, key: str, msg: str, detail=None):
        """Record a violation; `key` identifies the failing input and is stable across runs."""
        if len(self.violations) < 20 and all(v[0] != key for v in self.violations):
            self.violations.append((key, msg, detail))

    def outcome(self, o):
        """Note a distinct outcome (short hash), to show that the exploration is not vacuous."""
        if len(self.outcomes) < 5000:
            self.outcomes.add(hashlib.md5(repr(o).encode()).hexdigest()[:12])


def _alarm(signum, frame):
    raise CaseTimeout()


def _quiet_worker():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_one(mod, case, timeout):
    res = Res()
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        mod.run_case(case, res)
    except CaseTimeout:
        res.fail(f"timeout:{short(case)}", f"no answer within {timeout} s", case)
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # the code under test raised where the oracle expects a value
        if os.environ.get("MC_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{pathlib.Path(f.filename).name}:{f.name}" for f in reversed(tb) if "/calliope/" in f.filename), "")
        res.fail(
            f"exception:{type(e).__name__}:{short(case)}",
            f"unexpected {type(e).__name__} in {where}: {str(e)[:300]}",
            {"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        signal.alarm(0)
    res.wall = time.time() - t
    return res


def short(case):
    s = json.dumps(case, sort_keys=True, default=str)
    return s if len(s) <= 120 else s[:90] + "#" + hashlib.md5(s.encode()).hexdigest()[:10]


def _work(args):
    modname, cases, timeout = args
    import importlib

    mod = importlib.import_module(modname)
    return [(c, run_one(mod, c, timeout)) for c in cases]


def known_findings(prop):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("known: "):
                head, _, desc = line[len("known: "):].partition(" :: ")
                p, _, key = head.partition(" key=")
                if p == f"property={prop}":
                    out[key] = desc
    return out


def run(modname, tier, seed, workers=None, replay=None):
    import importlib

    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    workers = workers or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    timeout = getattr(mod, "CASE_TIMEOUT", 240)
    chunk = getattr(mod, "CHUNK", 1)
    budget = float(os.environ.get("MC_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 780 if tier == "quick" else 6 * 3600)))

    if replay:
        doc = json.loads(pathlib.Path(replay).read_text())
        r = run_one(mod, doc["case"], 3600)
        for key, msg, det in r.violations:
            print("REPLAY", key, "::", msg)
            if isinstance(det, dict) and "traceback" in det:
                print(det["traceback"])
        print("reproduced" if any(k == doc["key"] for k, _, _ in r.violations) else "not reproduced")
        return 1 if r.violations else 0

    known = known_findings(prop)
    hit_known, new = {}, {}
    tot = Res()
    samples, ncases, done, wall_cases = [], 0, 0, 0.0
    finished = True
    case_list = list(mod.cases(tier))
    ncases = len(case_list)
    families = collections.Counter(c[0] if isinstance(c, (list, tuple)) else "all" for c in case_list)
    # interleave long families so that workers stay busy; the set of cases is unchanged
    jobs = [(modname, case_list[i:i + chunk], timeout) for i in range(0, ncases, chunk)]

    def absorb(case, r):
        nonlocal done, wall_cases
        done += 1
        wall_cases += r.wall
        for f in ("states", "transitions", "traces", "evaluations", "nontrivial"):
            setattr(tot, f, getattr(tot, f) + getattr(r, f))
        tot.counts.update(r.counts)
        tot.outcomes |= r.outcomes
        if r.sample is not None and len(samples) < 6:
            samples.append(r.sample)
        for key, msg, det in r.violations:
            if key in known:
                hit_known[key] = msg
            elif key not in new:
                new[key] = (msg, det, case)

    # the check must leave no solver or library chatter between its own lines
    with cf.ProcessPoolExecutor(workers, initializer=_quiet_worker) as pool:
        pend = set()
        it = iter(jobs)
        exhausted = False
        try:
            while True:
                while not exhausted and len(pend) < workers * 3:
                    j = next(it, None)
                    if j is None:
                        exhausted = True
                        break
                    pend.add(pool.submit(_work, j))
                if not pend:
                    break
                ok, pend = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
                for f in ok:
                    for case, r in f.result():
                        absorb(case, r)
                if len(new) >= MAX_NEW or (new and time.time() - t0 > 60):
                    finished = exhausted and not pend
                    break
                if time.time() - t0 > budget:
                    finished = exhausted and not pend
                    break
        except cf.process.BrokenProcessPool:
            new["worker-died"] = ("a worker process ended abnormally (crash or memory)", None, ["worker-died"])
            finished = False
        for f in pend:
            f.cancel()
        for p in list((getattr(pool, "_processes", None) or {}).values()):
            if not finished:
                p.kill()

    if finished and not new and hasattr(mod, "finalize"):
        try:
            mod.finalize(tot)
        except Exception as e:
            tot.fail("finalize", repr(e))
        for key, msg, det in tot.violations:
            if key in known:
                hit_known[key] = msg
            else:
                new[key] = (msg, det, ["finalize"])

    wall = time.time() - t0
    level = mod.LEVEL
    cov = {"cases": done, "cases_in_space": ncases, "families": dict(families), "distinct_outcomes": len(tot.outcomes),
           "exhaustive": bool(finished), "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""), "counts": dict(tot.counts)}
    if level == "model_checking":
        cov.update(states=tot.states, transitions=tot.transitions, traces_validated_against_impl=tot.traces, samples=samples)
    else:
        cov.update(evaluations=tot.evaluations, distinct_nontrivial=tot.nontrivial, rule=mod.RULE, samples=samples)
        if tot.states:
            cov.update(states=tot.states, transitions=tot.transitions)
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
        "violations": len(new)}, indent=1, default=str))
    print(f"{prop} {tier}: {done}/{ncases} cases, states={tot.states} transitions={tot.transitions} "
          f"traces={tot.traces} evaluations={tot.evaluations} outcomes={len(tot.outcomes)} "
          f"exhaustive={finished} wall={wall:.1f}s case-seconds={wall_cases:.0f}")
    for key in sorted(hit_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]} [{key}]")
    rdir = EVIDENCE / "replay"
    for key, (msg, det, case) in sorted(new.items(), key=lambda kv: len(kv[0]))[:MAX_NEW]:
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{hashlib.md5(key.encode()).hexdigest()[:10]}.json"
        path.write_text(json.dumps({"property": prop, "module": modname, "key": key, "message": msg, "case": case, "detail": det}, indent=1, default=str))
        print(f"  {key}\n    {msg[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return 1 if new else 0
