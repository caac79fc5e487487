"""A very small model with its own small base math, for checks of the math machinery.

Nothing of the shipped math is used, so a build takes milliseconds.  The data hold the
special values that matter: missing, infinite, zero, boolean and string entries.
"""
from __future__ import annotations

import pathlib
import warnings

from mc import fast

fast.memo_grammars()

MATH = str(pathlib.Path(__file__).parent / "data" / "tiny.yaml")
NODES, TECHS, CARRIERS = ["a", "b"], ["s", "t"], ["e", "h"]
INF = float("inf")


def definition(math=MATH, data=None, timesteps=3, backend="pyomo"):
    ts = [f"2005-01-01 {h:02d}:00" for h in range(timesteps)]
    d = {
        "config": {
            "init": {"name": "tiny", "math_paths": {"base": math}},
            "build": {"backend": backend, "objective": "o1"},
            "solve": {"solver": "glpk" if backend == "pyomo" else "gurobi", "zero_threshold": 0},
        },
        "techs": {
            "s": {"base_tech": "supply", "carrier_out": "e"},
            "t": {"base_tech": "conversion", "carrier_in": "e", "carrier_out": "h"},
        },
        "nodes": {"a": {"techs": {"s": None, "t": None}}, "b": {"techs": {"s": None}}},
        "data_definitions": {
            "p0": 2,
            "pn": {"data": [1], "index": [["a"]], "dims": ["nodes"]},
            "pnd": {"data": [3], "index": [["b"]], "dims": ["nodes"]},
            "pt": {"data": [0, INF], "index": [["s"], ["t"]], "dims": ["techs"]},
            "pnt": {"data": [1, 3], "index": [["a", "s"], ["b", "s"]], "dims": ["nodes", "techs"]},
            "pntd": {"data": [2, 9], "index": [["a", "t"], ["b", "s"]], "dims": ["nodes", "techs"]},
            "pts": {"data": list(range(1, timesteps + 1)), "index": [[t] for t in ts], "dims": ["timesteps"]},
            "pd": {"data": [1, 4], "index": [["x"], ["z"]], "dims": ["d"]},
            "pnd2": {"data": [6, -1], "index": [["a", "x"], ["b", "y"]], "dims": ["nodes", "d"]},
            "pnk": {"data": [1, 2, 3], "index": [["a", 1], ["a", 2], ["b", 3]], "dims": ["nodes", "k"]},
            "ls": {"data": ["foo"], "index": [["s"]], "dims": ["techs"]},
            "lsd": {"data": ["bar"], "index": [["t"]], "dims": ["techs"]},
            "lb": {"data": [True, False], "index": [["a"], ["b"]], "dims": ["nodes"]},
            "lnn": {"data": ["b"], "index": [["a"]], "dims": ["nodes"]},
            "lnt": {"data": ["b", "a", "a"], "index": [["a", "s"], ["a", "t"], ["b", "s"]], "dims": ["nodes", "techs"]},
            "ldn": {"data": ["x", "z"], "index": [["a"], ["b"]], "dims": ["nodes"]},
        },
    }
    d["data_definitions"].update(data or {})
    return d


def model(build=True, math=MATH, data=None, timesteps=3, backend="pyomo", **kw):
    import calliope

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_dict(definition(math, data, timesteps, backend), **kw)
        if build:
            m.build()
    return m
