"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'symbolic execution of the compiled Rust (LLVM bitcode regenerated from the tree), assertions decided by Z3'
HOOKS = ['d3ef22b']
full = [subprocess.run(['git', '-C', '/repo', 'rev-parse', h], stdout=subprocess.PIPE, text=True).stdout.strip() for h in HOOKS]
checks, na = [], []
for p in props:
    i = p['id']
    s = specs.SPECS.get(i)
    if s:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH + (s.get('tech') and '; ' + s['tech'] or ''), level='model_checking',
            level_note='Holds for every value, choice and schedule within the bounds: ' + s['bounds'] + '. Outside: ' + s['outside'] + '. Trusted: rustc/LLVM, the engine, ' + ('the OS model model/os.c, ' if s.get('os') else '') + 'the reference oracle in harness/; finished paths and counterexamples are replayed as machine code.'))
    else:
        na.append(dict(property=i, reason=specs.NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/vlib.py setup', hooks=dict(guard='cfg(wruster_verif)', enable="RUSTFLAGS='--cfg wruster_verif' (tools/vlib.py sets it)", source_commits=full), checks=checks, not_applicable=na,
         notes='One driver, tools/check.py; what each check explores is listed in tools/specs.py; findings in known_findings.txt; design in DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
