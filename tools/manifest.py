#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the harness directives."""
import json, re, subprocess, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root/'properties.jsonl')]
bounds = {}
for f in sorted(root.glob('harness/**/*.go')):
    for m in re.finditer(r'^//verif:(prop=(C\d+).*)$', f.read_text(), re.M):
        b = re.search(r'bounds="([^"]*)"', m.group(1))
        bounds.setdefault(m.group(2), []).append(b.group(1) if b else '')
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in bounds and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'bounded symbolic execution of the Go SSA of the current tree with z3 deciding every branch and assertion (cvc5 cross-check), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Holds for every input, schedule and fault within the bounds: ' + ' | '.join(bounds[i]) +
              '. Trusts the engine (validated against native runs on every check), the environment model in harness/zzw, the models of reflection-based library code, and the solvers; see DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
fixes = subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks are needed in /repo: harnesses and the environment model are laid over it with a build overlay. Repairs are the "fix:" commits, recorded in known-findings.json.',
}
(root/'MANIFEST.json').write_text(json.dumps(m, indent=1)+'\n')
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
