import json,pathlib
root=pathlib.Path(__file__).resolve().parent.parent
props=[json.loads(l) for l in (root/'properties.jsonl').read_text().splitlines()]
out='''# Verification of calliope by model checking

`properties.jsonl` (written by `tools/make_properties.py`) states the properties, `MANIFEST.json` (written by `tools/make_manifest.py` from
`tools/manifest_notes.py` and the modules present) registers one check per property, `known_findings.txt` lists what was repaired and what
is left, `seeded/` holds planted bugs (no check reads it).

## 1. Common method

Every check enumerates a bounded space **completely** (no sampling, no solver verdict about source code) and runs every member of the space
on the **real code** in `/repo/src` (editable install; nothing is compiled, so a check always sees the current tree).  Two shapes occur:

* *explicit-state* (level `model_checking`): a reference model with states and transitions - dictionary contents, life-cycle state, problem held,
  scores so far, levels of a store - is explored breadth-first or along all histories up to a depth, and every transition is replayed on the
  implementation and compared (that replay is the conformance check: `traces_validated_against_impl` in the evidence).
  In C18 and C24 the model is the set of all plans a documented system allows on a grid; the built rows are read back from the solver
  interface, the set of all plans *they* allow is enumerated as well, and the sets and every plan's cost must coincide.
* *exhaustive enumeration of inputs, configurations, orders or fault points* (levels `exploration`, `fault_enumeration`): the reference is a
  small interpreter of the documented rule.

Oracles are always independent of the code under test: plain dictionaries and lists, ordinary arithmetic, documented rules restated as
predicates, a problem built afresh, the other solver interface, or finite differences of optimal costs.  Checks look only at observable behaviour
(public calls, files, the problem held by the solver, reported results): they do not care how the code is written.

Parts: `mc/run.py` (command line), `mc/core.py` (spreads cases over 8 processes, collects violations with a *key* naming the failing input, matches
keys against `known:` lines, writes evidence; stops after 6 new violations), `mc/problem.py` (reads a problem - variables, bounds, domains, rows,
objective - back from Pyomo and Gurobi into plain tuples), `mc/tiny.py`, `mc/systems.py`, `mc/plans.py` (definitions; rules and enumeration of plans),
`mc/fast.py` (memoises YAML reading and pyparsing grammars, which are pure, for speed).
A case that times out or dies counts as a violation of its own (key `timeout:`/`crash:`), never as a pass.
`check.sh ID --replay FILE` re-runs the cases of a violation from the file named in its VIOLATION line.

No hooks are needed in `/repo`: solver calls, file writes and subprocesses are observed or answered by stand-ins registered from outside.
All files are written below a temporary directory of the check.

TLA+/SPIN models were not used: the properties are about data (arrays, expressions, problems), and exploring the implementation itself against a
small executable reference is both exhaustive within the bound and bound to the code without a separate conformance step.

Cost: quick checks take 2 s to about 90 s each on 8 cores; thorough ones from 10 s to about 30 min.

## 2. Properties and checks
'''
import sys
sys.path.insert(0,str(root/'tools'))
ns={}; exec((root/'tools/manifest_notes.py').read_text(),ns)
import ast
D=json.loads((root/'tools'/'design_parts.json').read_text())
for p in props:
    i=p['id']
    out+=f"\n### {i} {p['title']}\n\n"
    f=root/'mc'/f'{i.lower()}.py'
    if i not in ns['NOTES'] or not f.exists():
        out+="Not claimed (not_applicable in the manifest): "+ns['NA'].get(i,'')+"\n"; continue
    t=ast.parse(f.read_text()); b={}
    level=""
    for n in t.body:
        if isinstance(n,ast.Assign):
            if getattr(n.targets[0],'id','')=="BOUNDS": b=ast.literal_eval(n.value)
            if isinstance(n.targets[0],ast.Tuple) and n.targets[0].elts[0].id=="PROPERTY": level=ast.literal_eval(n.value)[1]
    tech,note=ns['NOTES'][i]
    d=D.get(i,{})
    out+=f"* Decided by: {tech} (level `{level}`). {note}\n"
    if d.get('how'): out+=f"* How: {d['how']}\n"
    out+=f"* Bounds, quick: {b.get('quick')}.\n* Bounds, thorough: {b.get('thorough')}.\n"
    out+=f"* Beyond the tests: {d.get('why') or p['why_tests_cant']}\n"
    if d.get('fa'): out+=f"* False alarms met while building it, corrected in the oracle: {d['fa']}\n"
rows=[]
for f in sorted(root.glob('seeded/*/meta.json')):
    m=json.loads(f.read_text()); rows.append(f"| {f.parent.name} | {m['property']} | {m['needs']} | {m['property']} quick |")
out+=(root/'tools/design_tail.md').read_text().replace('%SEEDED%','\n'.join(rows))
(root/'DESIGN.md').write_text(out)
